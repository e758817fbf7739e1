// Code generated by tools/genreg.sh. DO NOT EDIT.

package main

var registry = map[string]func(){
	"Q_C01_bool":             Q_C01_bool,
	"Q_C01_float32":          Q_C01_float32,
	"Q_C01_float64":          Q_C01_float64,
	"Q_C01_int64":            Q_C01_int64,
	"Q_C01_lists":            Q_C01_lists,
	"Q_C01_small":            Q_C01_small,
	"Q_C01_special":          Q_C01_special,
	"Q_C01_uint64":           Q_C01_uint64,
	"Q_C02_bf":               Q_C02_bf,
	"Q_C02_long":             Q_C02_long,
	"Q_C02_pairs":            Q_C02_pairs,
	"Q_C02_positions":        Q_C02_positions,
	"Q_C02_quoted":           Q_C02_quoted,
	"Q_C02_repeat":           Q_C02_repeat,
	"Q_C02_value":            Q_C02_value,
	"Q_C02_window":           Q_C02_window,
	"Q_C03_decode":           Q_C03_decode,
	"Q_C03_long":             Q_C03_long,
	"Q_C03_names":            Q_C03_names,
	"Q_C03_nohtml":           Q_C03_nohtml,
	"Q_C03_positions":        Q_C03_positions,
	"Q_C03_quoted":           Q_C03_quoted,
	"Q_C03_value":            Q_C03_value,
	"Q_C03_window":           Q_C03_window,
	"Q_C04_bulk":             Q_C04_bulk,
	"Q_C04_chain":            Q_C04_chain,
	"Q_C04_deep":             Q_C04_deep,
	"Q_C04_flat":             Q_C04_flat,
	"Q_C04_huge":             Q_C04_huge,
	"Q_C04_iface":            Q_C04_iface,
	"Q_C04_long":             Q_C04_long,
	"Q_C04_nested":           Q_C04_nested,
	"Q_C04_sizes":            Q_C04_sizes,
	"Q_C04_tree":             Q_C04_tree,
	"Q_C04_wide":             Q_C04_wide,
	"Q_C05_chain":            Q_C05_chain,
	"Q_C05_embed":            Q_C05_embed,
	"Q_C05_graph":            Q_C05_graph,
	"Q_C05_many":             Q_C05_many,
	"Q_C05_multi":            Q_C05_multi,
	"Q_C05_names":            Q_C05_names,
	"Q_C05_options":          Q_C05_options,
	"Q_C05_othertags":        Q_C05_othertags,
	"Q_C05_rawtag":           Q_C05_rawtag,
	"Q_C05_static":           Q_C05_static,
	"Q_C05_string":           Q_C05_string,
	"Q_C05_tag":              Q_C05_tag,
	"Q_C06_both":             Q_C06_both,
	"Q_C06_null":             Q_C06_null,
	"Q_C06_null_kinds":       Q_C06_null_kinds,
	"Q_C06_omitempty_kind":   Q_C06_omitempty_kind,
	"Q_C06_omitempty_scalar": Q_C06_omitempty_scalar,
	"Q_C06_omitnil":          Q_C06_omitnil,
	"Q_C06_sequence":         Q_C06_sequence,
	"Q_C06_typednil":         Q_C06_typednil,
	"Q_C07_alike":            Q_C07_alike,
	"Q_C07_escape":           Q_C07_escape,
	"Q_C07_huge":             Q_C07_huge,
	"Q_C07_int":              Q_C07_int,
	"Q_C07_intkinds":         Q_C07_intkinds,
	"Q_C07_keyopts":          Q_C07_keyopts,
	"Q_C07_large":            Q_C07_large,
	"Q_C07_many":             Q_C07_many,
	"Q_C07_named":            Q_C07_named,
	"Q_C07_nested":           Q_C07_nested,
	"Q_C07_prefix":           Q_C07_prefix,
	"Q_C07_string":           Q_C07_string,
	"Q_C07_sync":             Q_C07_sync,
	"Q_C07_text":             Q_C07_text,
	"Q_C07_unsorted":         Q_C07_unsorted,
	"Q_C07_unsupported":      Q_C07_unsupported,
	"Q_C08_alienKeys":        Q_C08_alienKeys,
	"Q_C08_aliens":           Q_C08_aliens,
	"Q_C08_chains":           Q_C08_chains,
	"Q_C08_context":          Q_C08_context,
	"Q_C08_embed":            Q_C08_embed,
	"Q_C08_errors":           Q_C08_errors,
	"Q_C08_iface":            Q_C08_iface,
	"Q_C08_ifaceElems":       Q_C08_ifaceElems,
	"Q_C08_ifaceMethods":     Q_C08_ifaceMethods,
	"Q_C08_keyTypes":         Q_C08_keyTypes,
	"Q_C08_keys":             Q_C08_keys,
	"Q_C08_kinds":            Q_C08_kinds,
	"Q_C08_nil":              Q_C08_nil,
	"Q_C08_nilKinds":         Q_C08_nilKinds,
	"Q_C08_results":          Q_C08_results,
	"Q_C08_struct":           Q_C08_struct,
	"Q_C08_zero":             Q_C08_zero,
	"Q_C09_bytes":            Q_C09_bytes,
	"Q_C09_long":             Q_C09_long,
	"Q_C09_nesting":          Q_C09_nesting,
	"Q_C09_nil":              Q_C09_nil,
	"Q_C09_runs":             Q_C09_runs,
	"Q_C09_space":            Q_C09_space,
	"Q_C09_string":           Q_C09_string,
	"Q_C09_untouched":        Q_C09_untouched,
	"Q_C10_alphabet":         Q_C10_alphabet,
	"Q_C10_digits":           Q_C10_digits,
	"Q_C10_long":             Q_C10_long,
	"Q_C10_positions":        Q_C10_positions,
	"Q_C10_quoted":           Q_C10_quoted,
	"Q_C10_short":            Q_C10_short,
	"Q_C11_clock":            Q_C11_clock,
	"Q_C11_date":             Q_C11_date,
	"Q_C11_frac":             Q_C11_frac,
	"Q_C11_fracs":            Q_C11_fracs,
	"Q_C11_layout":           Q_C11_layout,
	"Q_C11_layouts":          Q_C11_layouts,
	"Q_C11_mono":             Q_C11_mono,
	"Q_C11_positions":        Q_C11_positions,
	"Q_C11_range":            Q_C11_range,
	"Q_C11_unix":             Q_C11_unix,
	"Q_C11_zones":            Q_C11_zones,
	"Q_C12_min":              Q_C12_min,
	"Q_C12_positions":        Q_C12_positions,
	"Q_C12_quoted":           Q_C12_quoted,
	"Q_C12_string":           Q_C12_string,
	"Q_C12_value":            Q_C12_value,
	"Q_C13_append":           Q_C13_append,
	"Q_C13_base64":           Q_C13_base64,
	"Q_C13_large":            Q_C13_large,
	"Q_C13_long":             Q_C13_long,
	"Q_C13_marshalers":       Q_C13_marshalers,
	"Q_C13_raw":              Q_C13_raw,
	"Q_C14_everywhere":       Q_C14_everywhere,
	"Q_C14_invalid":          Q_C14_invalid,
	"Q_C14_lists":            Q_C14_lists,
	"Q_C14_listsym":          Q_C14_listsym,
	"Q_C14_longlists":        Q_C14_longlists,
	"Q_C14_nil":              Q_C14_nil,
	"Q_C14_number":           Q_C14_number,
	"Q_C14_order":            Q_C14_order,
	"Q_C14_promoted":         Q_C14_promoted,
	"Q_C14_reuse":            Q_C14_reuse,
	"Q_C14_subsets":          Q_C14_subsets,
	"Q_C14_twice":            Q_C14_twice,
	"Q_C15_capacity":         Q_C15_capacity,
	"Q_C15_catalog":          Q_C15_catalog,
	"Q_C15_failing":          Q_C15_failing,
	"Q_C15_grow":             Q_C15_grow,
	"Q_C15_large":            Q_C15_large,
	"Q_C15_prefix":           Q_C15_prefix,
	"Q_C15_spare":            Q_C15_spare,
	"Q_C15_unsorted":         Q_C15_unsorted,
	"Q_C16_append":           Q_C16_append,
	"Q_C16_context":          Q_C16_context,
	"Q_C16_history":          Q_C16_history,
	"Q_C16_large":            Q_C16_large,
	"Q_C16_manytypes":        Q_C16_manytypes,
	"Q_C16_marshalers":       Q_C16_marshalers,
	"Q_C16_memo":             Q_C16_memo,
	"Q_C16_options":          Q_C16_options,
	"Q_C16_owned":            Q_C16_owned,
	"Q_C16_pairs":            Q_C16_pairs,
	"Q_C16_pools":            Q_C16_pools,
	"Q_C16_repeat":           Q_C16_repeat,
	"Q_C16_reuse":            Q_C16_reuse,
	"Q_C16_sequence":         Q_C16_sequence,
	"Q_C16_types":            Q_C16_types,
	"Q_C17_filled_conc":      Q_C17_filled_conc,
	"Q_C17_first_conc":       Q_C17_first_conc,
	"Q_C17_kinds_conc":       Q_C17_kinds_conc,
	"Q_C17_large_conc":       Q_C17_large_conc,
	"Q_C17_methods_conc":     Q_C17_methods_conc,
	"Q_C17_rich_conc":        Q_C17_rich_conc,
	"Q_C17_shared_conc":      Q_C17_shared_conc,
	"Q_C17_three_conc":       Q_C17_three_conc,
	"Q_C17_warm_conc":        Q_C17_warm_conc,
	"Q_C18_catalog":          Q_C18_catalog,
	"Q_C18_deep":             Q_C18_deep,
	"Q_C18_leaf":             Q_C18_leaf,
	"Q_C18_maps":             Q_C18_maps,
	"Q_C18_recursive":        Q_C18_recursive,
	"Q_C18_spare":            Q_C18_spare,
	"Q_C18_text":             Q_C18_text,
	"Q_C19_deep":             Q_C19_deep,
	"Q_C19_leaf":             Q_C19_leaf,
	"Q_C19_omitted":          Q_C19_omitted,
	"Q_C19_options":          Q_C19_options,
	"Q_C19_outputs":          Q_C19_outputs,
	"Q_C19_types":            Q_C19_types,
	"Q_C19_years":            Q_C19_years,
	"Q_C20_context":          Q_C20_context,
	"Q_C20_first":            Q_C20_first,
	"Q_C20_floats":           Q_C20_floats,
	"Q_C20_keys":             Q_C20_keys,
	"Q_C20_leaf":             Q_C20_leaf,
	"Q_C20_marshaler":        Q_C20_marshaler,
	"Q_C20_numbers":          Q_C20_numbers,
	"Q_C20_options":          Q_C20_options,
	"Q_C20_syntax":           Q_C20_syntax,
	"Q_C20_wrapped":          Q_C20_wrapped,
	"T_C11_all":              T_C11_all,
	"T_C11_range":            T_C11_range,
	"T_C11_unix":             T_C11_unix,
	"T_C12_string":           T_C12_string,
}
