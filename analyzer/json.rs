//! A minimal JSON reader and string escaper.
#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Num(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, j)| j),
            _ => None,
        }
    }
    pub fn at(&self, i: usize) -> &J {
        match self {
            J::Arr(v) => v.get(i).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn s(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn n(&self) -> i128 {
        match self {
            J::Num(n) => *n,
            J::Str(s) => s.parse().unwrap_or(0),
            J::Bool(b) => *b as i128,
            _ => -1,
        }
    }
    pub fn b(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn key(&self, k: &str) -> &J {
        self.get(k).unwrap_or(&J::Null)
    }
}
pub fn parse(s: &[u8]) -> J {
    let mut p = P { s, i: 0 };
    p.val()
}
struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\t' | b'\r') {
            self.i += 1;
        }
    }
    fn val(&mut self) -> J {
        self.ws();
        match self.s[self.i] {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    if self.s[self.i] == b'}' {
                        self.i += 1;
                        return J::Obj(v);
                    }
                    if self.s[self.i] == b',' {
                        self.i += 1;
                        continue;
                    }
                    let k = self.str();
                    self.ws();
                    self.i += 1; // ':'
                    let x = self.val();
                    v.push((k, x));
                }
            }
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    match self.s[self.i] {
                        b']' => {
                            self.i += 1;
                            return J::Arr(v);
                        }
                        b',' => self.i += 1,
                        _ => v.push(self.val()),
                    }
                }
            }
            b'"' => J::Str(self.str()),
            b't' => {
                self.i += 4;
                J::Bool(true)
            }
            b'f' => {
                self.i += 5;
                J::Bool(false)
            }
            b'n' => {
                self.i += 4;
                J::Null
            }
            _ => {
                let st = self.i;
                while self.i < self.s.len() && matches!(self.s[self.i], b'-' | b'0'..=b'9' | b'.' | b'e' | b'E' | b'+') {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                J::Num(t.parse::<i128>().unwrap_or_else(|_| t.parse::<f64>().map(|f| f as i128).unwrap_or(0)))
            }
        }
    }
    fn str(&mut self) -> String {
        self.i += 1;
        let mut o: Vec<u8> = vec![];
        loop {
            let c = self.s[self.i];
            self.i += 1;
            match c {
                b'"' => return String::from_utf8_lossy(&o).into_owned(),
                b'\\' => {
                    let e = self.s[self.i];
                    self.i += 1;
                    match e {
                        b'n' => o.push(b'\n'),
                        b't' => o.push(b'\t'),
                        b'r' => o.push(b'\r'),
                        b'u' => {
                            let h = std::str::from_utf8(&self.s[self.i..self.i + 4]).unwrap();
                            self.i += 4;
                            let c = char::from_u32(u32::from_str_radix(h, 16).unwrap_or(63)).unwrap_or('?');
                            let mut b = [0u8; 4];
                            o.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                        }
                        e => o.push(e),
                    }
                }
                c => o.push(c),
            }
        }
    }
}
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
