//! Minimal JSON writer (no external crates are available to a rustc_private driver offline).
pub enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
impl J {
    pub fn obj() -> J {
        J::O(vec![])
    }
    pub fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    pub fn put(&mut self, k: &str, v: J) {
        if let J::O(o) = self {
            o.push((k.to_string(), v));
        }
    }
    pub fn get_str(&self, k: &str) -> Option<&str> {
        if let J::O(o) = self {
            for (a, b) in o {
                if a == k {
                    if let J::S(s) = b {
                        return Some(s);
                    }
                }
            }
        }
        None
    }
    pub fn render(&self) -> String {
        let mut s = String::new();
        self.w(&mut s);
        s
    }
    fn w(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::N(n) => out.push_str(&n.to_string()),
            J::S(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        '\t' => out.push_str("\\t"),
                        '\r' => out.push_str("\\r"),
                        c if (c as u32) < 32 => out.push_str(&format!("\\u{:04x}", c as u32)),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::A(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.w(out);
                }
                out.push(']');
            }
            J::O(o) => {
                out.push('{');
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    J::S(k.clone()).w(out);
                    out.push(':');
                    v.w(out);
                }
                out.push('}');
            }
        }
    }
}
