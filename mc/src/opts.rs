//! Write options: all combinations, and a small covering set.

use svgdom::{Indent, ListSeparator, ValueWriteOptions, WriteOptions};

const INDENTS: [Indent; 5] = [Indent::Spaces(4), Indent::None, Indent::Spaces(0), Indent::Spaces(1), Indent::Tabs];
const ATTRS: [Indent; 4] = [Indent::None, Indent::Spaces(0), Indent::Spaces(2), Indent::Tabs];
const SEPS: [ListSeparator; 3] = [ListSeparator::Space, ListSeparator::Comma, ListSeparator::CommaSpace];

/// Layout options: quote x indent x attribute indent.
pub const LAYOUTS: u64 = 2 * 5 * 4;
/// Value options: 7 flags x separator.
pub const VALUES: u64 = 128 * 3;

pub fn make(layout: u64, value: u64) -> WriteOptions {
    let b = |k: u64| value / 3 >> k & 1 == 1;
    WriteOptions {
        use_single_quote: layout % 2 == 1,
        indent: INDENTS[(layout / 2 % 5) as usize],
        attributes_indent: ATTRS[(layout / 10 % 4) as usize],
        values: ValueWriteOptions {
            trim_hex_colors: b(0),
            remove_leading_zero: b(1),
            use_compact_path_notation: b(2),
            join_arc_to_flags: b(3),
            remove_duplicated_path_commands: b(4),
            use_implicit_lineto_commands: b(5),
            simplify_transform_matrices: b(6),
            list_separator: SEPS[(value % 3) as usize],
        },
    }
}

/// Options that differ from each other in every field.
pub fn few() -> Vec<WriteOptions> {
    vec![make(0, 0), make(3, VALUES - 1), make(19, VALUES - 2), make(28, 7), make(39, 3 * 0x55)]
}

pub fn show(o: &WriteOptions) -> String {
    let v = &o.values;
    format!("quote={} indent={:?} attrs={:?} hex={} zero={} compact={} arc={} dup={} implicit={} matrix={} sep={:?}",
        if o.use_single_quote { "'" } else { "\"" }, o.indent, o.attributes_indent, v.trim_hex_colors as u8,
        v.remove_leading_zero as u8, v.use_compact_path_notation as u8, v.join_arc_to_flags as u8,
        v.remove_duplicated_path_commands as u8, v.use_implicit_lineto_commands as u8,
        v.simplify_transform_matrices as u8, v.list_separator)
}
