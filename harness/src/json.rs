//! A small JSON reader that keeps duplicate keys and checks well-formedness.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
pub fn parse(s: &str) -> Result<J, String> {
    let b = s.as_bytes();
    let mut p = 0;
    let v = value(s, b, &mut p)?;
    if p != b.len() {
        return Err(format!("trailing text at {p}"));
    }
    Ok(v)
}
fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && matches!(b[*p], b' ' | b'\n' | b'\t' | b'\r') {
        *p += 1;
    }
}
fn lit(b: &[u8], p: &mut usize, t: &str, v: J) -> Result<J, String> {
    if b[*p..].starts_with(t.as_bytes()) {
        *p += t.len();
        Ok(v)
    } else {
        Err(format!("bad literal at {p}"))
    }
}
fn string(s: &str, b: &[u8], p: &mut usize) -> Result<String, String> {
    let st = *p;
    *p += 1;
    while *p < b.len() && b[*p] != b'"' {
        if b[*p] == b'\\' {
            *p += 1;
        } else if b[*p] < 0x20 {
            return Err("control character in string".into());
        }
        *p += 1;
    }
    if *p >= b.len() {
        return Err("unterminated string".into());
    }
    *p += 1;
    serde_json::from_str::<String>(&s[st..*p]).map_err(|e| e.to_string())
}
fn value(s: &str, b: &[u8], p: &mut usize) -> Result<J, String> {
    ws(b, p);
    if *p >= b.len() {
        return Err("unexpected end".into());
    }
    let v = match b[*p] {
        b'n' => lit(b, p, "null", J::Null)?,
        b't' => lit(b, p, "true", J::Bool(true))?,
        b'f' => lit(b, p, "false", J::Bool(false))?,
        b'"' => J::Str(string(s, b, p)?),
        b'[' => {
            *p += 1;
            let mut v = vec![];
            ws(b, p);
            if b.get(*p) == Some(&b']') {
                *p += 1;
            } else {
                loop {
                    v.push(value(s, b, p)?);
                    match b.get(*p) {
                        Some(b',') => *p += 1,
                        Some(b']') => {
                            *p += 1;
                            break;
                        },
                        _ => return Err(format!("bad array at {p}")),
                    }
                }
            }
            J::Arr(v)
        },
        b'{' => {
            *p += 1;
            let mut v = vec![];
            ws(b, p);
            if b.get(*p) == Some(&b'}') {
                *p += 1;
            } else {
                loop {
                    ws(b, p);
                    if b.get(*p) != Some(&b'"') {
                        return Err(format!("bad key at {p}"));
                    }
                    let k = string(s, b, p)?;
                    ws(b, p);
                    if b.get(*p) != Some(&b':') {
                        return Err(format!("no colon at {p}"));
                    }
                    *p += 1;
                    v.push((k, value(s, b, p)?));
                    match b.get(*p) {
                        Some(b',') => *p += 1,
                        Some(b'}') => {
                            *p += 1;
                            break;
                        },
                        _ => return Err(format!("bad object at {p}")),
                    }
                }
            }
            J::Obj(v)
        },
        c if c == b'-' || c.is_ascii_digit() => {
            let st = *p;
            while *p < b.len() && matches!(b[*p], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                *p += 1;
            }
            let t = &s[st..*p];
            if t.parse::<f64>().is_err() {
                return Err(format!("bad number {t}"));
            }
            J::Num(t.to_string())
        },
        c => return Err(format!("unexpected {:?} at {p}", c as char)),
    };
    ws(b, p);
    Ok(v)
}
