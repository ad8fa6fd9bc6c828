//! Command line and JSON.
#![allow(dead_code)]
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Args(Vec<String>);
impl Args {
    pub fn new() -> Args {
        Args(std::env::args().skip(1).collect())
    }
    pub fn command(&self) -> Option<&str> {
        self.0.first().map(|s| s.as_str())
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map(|s| s.parse().expect(k)).unwrap_or(d)
    }
    pub fn str(&self, k: &str) -> &str {
        self.get(k).unwrap_or_else(|| panic!("{k} is missing"))
    }
}

#[inline]
pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}
