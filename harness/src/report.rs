//! Collection of what the monitors observed; written by main as JSON-ish for the python runner.
use std::collections::{BTreeMap, HashSet};
#[derive(Default)]
pub struct Report {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    /// known witnesses that (still) fail: signature -> description
    pub known: BTreeMap<String, String>,
}
pub struct Violation {
    pub sig: String,
    pub what: String,
    pub input: String,
}
pub fn hash_str(s: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}
impl Report {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(x) = self.counts.get_mut(k) {
            *x += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn seen(&mut self, text: &str) {
        self.evals += 1;
        self.distinct.insert(hash_str(text));
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut x = s();
            if x.len() > 600 {
                let mut k = 600;
                while !x.is_char_boundary(k) {
                    k -= 1;
                }
                x.truncate(k);
            }
            self.samples.push(x);
        }
    }
    pub fn violation(&mut self, sig: &str, what: impl Into<String>, input: impl Into<String>) {
        let n = self.violations.iter().filter(|v| v.sig == sig).count();
        self.count(&format!("violation:{}", sig));
        if n < 3 {
            self.violations.push(Violation { sig: sig.to_string(), what: what.into(), input: input.into() });
        }
    }
    pub fn merge(&mut self, o: Report) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s)
            }
        }
        for v in o.violations {
            if self.violations.iter().filter(|x| x.sig == v.sig).count() < 3 {
                self.violations.push(v)
            }
        }
        self.known.extend(o.known);
    }
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
impl Report {
    pub fn json(&self) -> String {
        let mut s = String::from("{");
        s.push_str(&format!("\"evals\":{},\"distinct\":{},", self.evals, self.distinct.len()));
        let c: Vec<String> = self.counts.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
        s.push_str(&format!("\"counts\":{{{}}},", c.join(",")));
        let c: Vec<String> = self.samples.iter().map(|k| jstr(k)).collect();
        s.push_str(&format!("\"samples\":[{}],", c.join(",")));
        let c: Vec<String> = self.known.iter().map(|(k, v)| format!("{}:{}", jstr(k), jstr(v))).collect();
        s.push_str(&format!("\"known\":{{{}}},", c.join(",")));
        let c: Vec<String> = self
            .violations
            .iter()
            .map(|v| format!("{{\"sig\":{},\"what\":{},\"input\":{}}}", jstr(&v.sig), jstr(&v.what), jstr(&v.input)))
            .collect();
        s.push_str(&format!("\"violations\":[{}]}}", c.join(",")));
        s
    }
}
