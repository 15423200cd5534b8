//! The decode table written by TLC from the specification (GenDecode.tla), used to choose opcodes.

use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Row { pub op: u16, pub name: String, pub sz: u8, pub m: i8, pub r: u8, pub x: u8, pub y: u8, pub k: u8, pub len: u8 }

pub fn load(path: &str) -> Vec<Row> {
    let text = std::fs::read_to_string(path).expect("decode table");
    text.lines().map(|l| {
        let f: Vec<&str> = l.trim_matches(|c| c == '[' || c == ']').split(',').collect();
        let n = |i: usize| f[i].trim().parse::<i64>().unwrap();
        Row { op: n(0) as u16, name: f[1].trim_matches('"').to_string(), sz: n(2) as u8, m: n(3) as i8, r: n(4) as u8,
            x: n(5) as u8, y: n(6) as u8, k: n(7) as u8, len: n(8) as u8 }
    }).collect()
}

pub fn ea_words(m: i8, r: u8, sz: u8) -> u8 {
    match (m, r) {
        (5, _) | (6, _) => 1,
        (7, 1) => 2,
        (7, 4) => if sz == 4 { 2 } else { 1 },
        (7, _) => 1,
        _ => 0,
    }
}

impl Row {
    pub fn src_words(&self) -> u8 { if self.m >= 0 { ea_words(self.m, self.r, self.sz) } else { 0 } }
    pub fn dst_words(&self) -> u8 { if self.name == "Move" { ea_words(self.y as i8, self.x, self.sz) } else { 0 } }
    pub fn imm_words(&self) -> u8 { self.len - 1 - self.src_words() - self.dst_words() }
}

/// Opcodes grouped by form: (instruction, size, mode, variant, destination mode).
pub struct Forms { pub rows: Vec<Row>, pub forms: Vec<Vec<u16>> }

pub fn forms(rows: &[Row], keep: impl Fn(&Row) -> bool) -> Forms {
    let mut m: BTreeMap<String, BTreeMap<(u8, i8, u8, u8, u8), Vec<u16>>> = BTreeMap::new();
    for r in rows {
        if !keep(r) { continue; }
        let mode = if r.m == 7 { 7 + r.r as i8 } else { r.m };
        let (y, cc) = match r.name.as_str() {
            "Move" => (if r.y == 7 { 7 + r.x } else { r.y }, 0),
            "Scc" | "Dbcc" | "Bcc" => ((r.name == "Bcc" && r.y == 0) as u8, r.x),
            "Bra" | "Bsr" => ((r.y == 0) as u8, 0),
            "Asr" | "Lsr" | "Roxr" | "Ror" => (r.y, 0),
            _ => (0, 0),
        };
        m.entry(r.name.clone()).or_default().entry((r.sz, mode, r.k, y, cc)).or_default().push(r.op);
    }
    // Every instruction has the same weight, then every form of it.
    let mut out = Vec::new();
    for (_, v) in m { for (_, ops) in v { out.push(ops); } }
    Forms { rows: rows.to_vec(), forms: out }
}

pub struct Pool { pub rows: Vec<Row>, pub by_name: Vec<Vec<Vec<u16>>> }
pub fn pool(rows: &[Row], keep: impl Fn(&Row) -> bool) -> Pool {
    let mut names: Vec<String> = rows.iter().filter(|r| keep(r)).map(|r| r.name.clone()).collect();
    names.sort();
    names.dedup();
    let by_name = names.iter().map(|n| forms(rows, |r| &r.name == n && keep(r)).forms).collect();
    Pool { rows: rows.to_vec(), by_name }
}
impl Pool {
    pub fn pick(&self, r: &mut crate::rng::Rng) -> Row {
        // half of the time by instruction, half of the time by form
        let op = if r.chance(1, 2) {
            let f = &self.by_name[r.below(self.by_name.len())];
            let g = &f[r.below(f.len())];
            g[r.below(g.len())]
        } else {
            let total: usize = self.by_name.iter().map(|f| f.len()).sum();
            let mut i = r.below(total);
            let mut op = 0;
            for f in &self.by_name {
                if i < f.len() { let g = &f[i]; op = g[r.below(g.len())]; break; }
                i -= f.len();
            }
            op
        };
        self.rows[op as usize].clone()
    }
}
