L = '''
use rust_systre::io::parse_cgd_line::*;
'''
B = '''
use rust_systre::io::parse_cgd_line::*;
use rust_systre::io::parse_cgd_blocks::*;
use rust_systre::io::parse_cgd_blocks::verif_hooks::*;
'''
BUGS = [
dict(id="integral-saturates", property="C42",
  edits=[("src/io/parse_cgd_line.rs", "    |f| if f == (f as i32) as f64 {", "    |f| if f.fract() == 0.0 {")],
  needs="an integral number beyond the range of integer fields",
  breaks="the largest integer is returned instead",
  demo=L+'''
fn main() {
    assert_eq!(parse_cgd_line("a 1e10").unwrap().1[1], Field::Double(1e10));
}
'''),
dict(id="fraction-sign", property="C42",
  edits=[("src/io/parse_cgd_line.rs", "        map_opt(preceded(char('-'), unsigned_integer), |n| Some(-(n as i32)))\n", "        map_opt(preceded(pair(char('-'), space0), unsigned_integer), |n| Some(-(n as i32)))\n")],
  needs="a lone minus sign in front of a fraction",
  breaks="two fields are read as one",
  demo=L+'''
fn main() {
    assert_eq!(parse_cgd_line("a - 1/2").unwrap().1.len(), 3);
}
'''),
dict(id="key-needs-fields", property="C44", hooked=True,
  edits=[("src/io/parse_cgd_blocks.rs", "                        current_key = Some(new_key.clone());\n                        current_block.entries.push(entry);", "                        if entry.fields.len() > 0 {\n                            current_key = Some(new_key.clone());\n                        }\n                        current_block.entries.push(entry);")],
  needs="a keyword alone on its line, with its data on the lines after it",
  breaks="the data are attached to the keyword before",
  demo=B+'''
fn main() {
    let b = parse_blocks("CRYSTAL\\n A 1\\n B\\n 2\\nEND\\n".as_bytes());
    assert_eq!(view_entry(&view_block(&b[0]).entries[3]).key.as_deref(), Some("b"));
}
'''),
dict(id="empty-notes-dropped", property="C45", hooked=True,
  edits=[("src/io/parse_cgd_blocks.rs", "                if entry.notes.len() > 0 {\n                    current_block.entries.push(entry);\n                }", "                if in_block && entry.notes.len() > 0 {\n                    current_block.entries.push(entry);\n                }")],
  needs="a line outside of all blocks of which nothing can be read",
  breaks="it disappears without notice",
  demo=B+'''
fn main() {
    let b = parse_blocks("\\"abc\\nCRYSTAL\\nEND\\n".as_bytes());
    let n: usize = b.iter().map(|b| view_block(b).entries.len()).sum();
    assert_eq!(n, 3);
}
'''),
dict(id="end-warning-position", property="C45", hooked=True,
  edits=[("src/io/parse_cgd_blocks.rs", "                        if !in_block {\n                            current_block.lineno_start", "                        if !in_block && current_block.entries.is_empty() {\n                            current_block.lineno_start")],
  needs="stray data in front of a stray end",
  breaks="the end without a block is not reported",
  demo=B+'''
fn main() {
    let b = parse_blocks("1 2\\nEND\\n".as_bytes());
    let v = view_block(&b[0]);
    assert_eq!(view_entry(&v.entries[1]).notes.len(), 1);
    assert_eq!(v.block_type, "--void--");
}
'''),
dict(id="line-error-kind", property="C46", hooked=True,
  edits=[("src/io/parse_cgd_blocks.rs", "            Err(e) => {\n                current_entry.entry_type = EntryType::Error;\n                current_entry.add_error(&format!(\"{:?}\", e));", "            Err(e) => {\n                current_entry.add_error(&format!(\"{:?}\", e));")],
  needs="a line that is not valid text",
  breaks="it is treated as a data line",
  demo=B+'''
fn main() {
    let b = parse_blocks(&b"CRYSTAL\\n\\xff\\nEND\\n"[..]);
    assert_eq!(*view_entry(&view_block(&b[0]).entries[1]).entry_type, EntryType::Error);
}
'''),
]
