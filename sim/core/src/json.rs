pub fn s(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(", "))
}
pub fn obj(v: &[(String, String)]) -> String {
    let b: Vec<String> = v.iter().map(|(k, x)| format!("{}: {}", s(k), x)).collect();
    format!("{{{}}}", b.join(", "))
}
