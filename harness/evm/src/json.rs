//! The small part of JSON that the proof files use.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Num(u64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
struct P<'a>(&'a [u8], usize);
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.1 < self.0.len() && self.0[self.1].is_ascii_whitespace() {
            self.1 += 1;
        }
    }
    fn peek(&mut self) -> Option<u8> {
        self.ws();
        self.0.get(self.1).copied()
    }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        if self.peek() == Some(c) {
            self.1 += 1;
            Ok(())
        } else {
            Err(format!("expected {:?} at {}", c as char, self.1))
        }
    }
    fn str(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let s = self.1;
        while self.1 < self.0.len() && self.0[self.1] != b'"' {
            if self.0[self.1] == b'\\' {
                return Err("escape".into());
            }
            self.1 += 1;
        }
        let r = String::from_utf8_lossy(&self.0[s..self.1]).to_string();
        self.eat(b'"')?;
        Ok(r)
    }
    fn val(&mut self) -> Result<J, String> {
        match self.peek() {
            Some(b'"') => Ok(J::Str(self.str()?)),
            Some(b'[') => {
                self.1 += 1;
                let mut v = vec![];
                if self.peek() == Some(b']') {
                    self.1 += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.val()?);
                    if self.peek() == Some(b',') {
                        self.1 += 1;
                    } else {
                        self.eat(b']')?;
                        return Ok(J::Arr(v));
                    }
                }
            }
            Some(b'{') => {
                self.1 += 1;
                let mut v = vec![];
                if self.peek() == Some(b'}') {
                    self.1 += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.str()?;
                    self.eat(b':')?;
                    v.push((k, self.val()?));
                    if self.peek() == Some(b',') {
                        self.1 += 1;
                    } else {
                        self.eat(b'}')?;
                        return Ok(J::Obj(v));
                    }
                }
            }
            Some(c) if c.is_ascii_digit() => {
                let s = self.1;
                while self.1 < self.0.len() && self.0[self.1].is_ascii_digit() {
                    self.1 += 1;
                }
                String::from_utf8_lossy(&self.0[s..self.1]).parse().map(J::Num).map_err(|e| format!("{}", e))
            }
            c => Err(format!("unexpected {:?} at {}", c, self.1)),
        }
    }
}
impl J {
    pub fn parse(s: &str) -> Result<J, String> {
        let mut p = P(s.as_bytes(), 0);
        let v = p.val()?;
        p.ws();
        if p.1 != s.len() {
            return Err("trailing data".into());
        }
        Ok(v)
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, j)| j),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&[J]> {
        match self {
            J::Arr(v) => Some(v),
            _ => None,
        }
    }
    pub fn hex(&self) -> Option<Vec<u8>> {
        match self {
            J::Str(s) => hex::decode(s.strip_prefix("0x")?).ok(),
            _ => None,
        }
    }
}
