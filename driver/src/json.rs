//! Minimal JSON writer.
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
    Map(Vec<(String, J)>),
}

pub fn s(x: impl Into<String>) -> J {
    J::Str(x.into())
}
pub fn i(x: usize) -> J {
    J::Int(x as i128)
}

fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}

impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(n) => o.push_str(&n.to_string()),
            J::Str(x) => esc(x, o),
            J::Arr(v) => {
                o.push('[');
                for (k, e) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    e.write(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (k, (n, e)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    esc(n, o);
                    o.push(':');
                    e.write(o);
                }
                o.push('}');
            }
            J::Map(v) => {
                o.push('{');
                for (k, (n, e)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    esc(n, o);
                    o.push(':');
                    e.write(o);
                }
                o.push('}');
            }
        }
    }
}
