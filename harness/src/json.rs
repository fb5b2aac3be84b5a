//! A strict RFC 8259 reader.

#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Num(String), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }
impl J {
	pub fn get(&self, k: &str) -> Option<&J> { if let J::Obj(v) = self { v.iter().find(|(n, _)| n == k).map(|x| &x.1) } else { None } }
	pub fn str(&self) -> Option<&str> { if let J::Str(s) = self { Some(s) } else { None } }
	pub fn arr(&self) -> Option<&[J]> { if let J::Arr(s) = self { Some(s) } else { None } }
	pub fn int(&self) -> Option<u64> { if let J::Num(s) = self { s.parse().ok() } else { None } }
	pub fn bytes(&self) -> Option<Vec<u8>> { self.arr()?.iter().map(|x| x.int().and_then(|n| u8::try_from(n).ok())).collect() }
	pub fn hex(&self) -> Option<Vec<u8>> {
		let s = self.str()?;
		if s.len() % 2 != 0 || !s.bytes().all(|c| c.is_ascii_hexdigit()) { return None; }
		Some((0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect())
	}
}
pub fn parse(s: &str) -> Result<J, String> {
	let mut p = P { b: s.as_bytes(), s, i: 0 };
	let v = p.value(0)?;
	p.ws();
	if p.i != p.b.len() { return Err(format!("text after the value at {}", p.i)); }
	Ok(v)
}
struct P<'a> { b: &'a [u8], s: &'a str, i: usize }
impl<'a> P<'a> {
	fn ws(&mut self) { while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') { self.i += 1; } }
	fn peek(&self) -> Option<u8> { self.b.get(self.i).copied() }
	fn lit(&mut self, l: &str, v: J) -> Result<J, String> {
		if self.s[self.i..].starts_with(l) { self.i += l.len(); Ok(v) } else { Err(format!("bad literal at {}", self.i)) }
	}
	fn value(&mut self, depth: usize) -> Result<J, String> {
		if depth > 50 { return Err("too deep".into()); }
		self.ws();
		match self.peek() {
			Some(b'{') => {
				self.i += 1;
				let mut o: Vec<(String, J)> = Vec::new();
				self.ws();
				if self.peek() == Some(b'}') { self.i += 1; return Ok(J::Obj(o)); }
				loop {
					self.ws();
					let k = self.string()?;
					self.ws();
					if self.peek() != Some(b':') { return Err(format!("expected ':' at {}", self.i)); }
					self.i += 1;
					let v = self.value(depth + 1)?;
					if o.iter().any(|(n, _)| *n == k) { return Err(format!("duplicate key {}", k)); }
					o.push((k, v));
					self.ws();
					match self.peek() { Some(b',') => self.i += 1, Some(b'}') => { self.i += 1; return Ok(J::Obj(o)); }, _ => return Err(format!("expected ',' or '}}' at {}", self.i)) }
				}
			},
			Some(b'[') => {
				self.i += 1;
				let mut o = Vec::new();
				self.ws();
				if self.peek() == Some(b']') { self.i += 1; return Ok(J::Arr(o)); }
				loop {
					o.push(self.value(depth + 1)?);
					self.ws();
					match self.peek() { Some(b',') => self.i += 1, Some(b']') => { self.i += 1; return Ok(J::Arr(o)); }, _ => return Err(format!("expected ',' or ']' at {}", self.i)) }
				}
			},
			Some(b'"') => Ok(J::Str(self.string()?)),
			Some(b't') => self.lit("true", J::Bool(true)),
			Some(b'f') => self.lit("false", J::Bool(false)),
			Some(b'n') => self.lit("null", J::Null),
			Some(c) if c == b'-' || c.is_ascii_digit() => {
				let st = self.i;
				if c == b'-' { self.i += 1; }
				match self.peek() {
					Some(b'0') => self.i += 1,
					Some(c) if c.is_ascii_digit() => while self.peek().map(|c| c.is_ascii_digit()).unwrap_or(false) { self.i += 1; },
					_ => return Err(format!("bad number at {}", st)),
				}
				if self.peek() == Some(b'.') {
					self.i += 1;
					let f = self.i;
					while self.peek().map(|c| c.is_ascii_digit()).unwrap_or(false) { self.i += 1; }
					if f == self.i { return Err(format!("bad number at {}", st)); }
				}
				if matches!(self.peek(), Some(b'e' | b'E')) {
					self.i += 1;
					if matches!(self.peek(), Some(b'+' | b'-')) { self.i += 1; }
					let f = self.i;
					while self.peek().map(|c| c.is_ascii_digit()).unwrap_or(false) { self.i += 1; }
					if f == self.i { return Err(format!("bad number at {}", st)); }
				}
				Ok(J::Num(self.s[st..self.i].to_string()))
			},
			_ => Err(format!("unexpected input at {}", self.i)),
		}
	}
	fn hex4(&mut self) -> Result<u32, String> {
		let t = self.s.get(self.i..self.i + 4).ok_or("truncated escape")?;
		if !t.bytes().all(|c| c.is_ascii_hexdigit()) { return Err("bad escape".into()); }
		self.i += 4;
		Ok(u32::from_str_radix(t, 16).unwrap())
	}
	fn string(&mut self) -> Result<String, String> {
		if self.peek() != Some(b'"') { return Err(format!("expected a string at {}", self.i)); }
		self.i += 1;
		let mut o = String::new();
		loop {
			let c = self.s[self.i..].chars().next().ok_or("unterminated string")?;
			self.i += c.len_utf8();
			match c {
				'"' => return Ok(o),
				'\\' => {
					let e = self.peek().ok_or("truncated escape")?;
					self.i += 1;
					match e {
						b'"' => o.push('"'), b'\\' => o.push('\\'), b'/' => o.push('/'), b'b' => o.push('\u{8}'), b'f' => o.push('\u{c}'),
						b'n' => o.push('\n'), b'r' => o.push('\r'), b't' => o.push('\t'),
						b'u' => {
							let mut v = self.hex4()?;
							if (0xd800..0xdc00).contains(&v) {
								if !self.s[self.i..].starts_with("\\u") { return Err("lone surrogate".into()); }
								self.i += 2;
								let l = self.hex4()?;
								if !(0xdc00..0xe000).contains(&l) { return Err("lone surrogate".into()); }
								v = 0x10000 + ((v - 0xd800) << 10) + (l - 0xdc00);
							}
							o.push(char::from_u32(v).ok_or("lone surrogate")?);
						},
						_ => return Err(format!("bad escape at {}", self.i - 1)),
					}
				},
				c if (c as u32) < 0x20 => return Err(format!("control character {:02x} in a string at {}", c as u32, self.i)),
				c => o.push(c),
			}
		}
	}
}
