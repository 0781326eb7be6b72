pub enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
pub fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
pub fn i(x: impl TryInto<i128>) -> J {
    J::I(x.try_into().ok().unwrap_or(i128::MAX))
}
fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(n) => o.push_str(&n.to_string()),
            J::S(x) => esc(x, o),
            J::A(v) => {
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',')
                    }
                    x.write(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',')
                    }
                    esc(n, o);
                    o.push(':');
                    x.write(o)
                }
                o.push('}')
            }
            J::M(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',')
                    }
                    esc(n, o);
                    o.push(':');
                    x.write(o)
                }
                o.push('}')
            }
        }
    }
}
