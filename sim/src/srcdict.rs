//! Literals of the library's sources, offered to the workload generators as values, sizes and
//! texts (a dictionary, as fuzzers use them; nothing is judged by it).
use std::path::Path;

fn files(d: &Path, out: &mut Vec<std::path::PathBuf>) {
    let mut v: Vec<_> = match std::fs::read_dir(d) {
        Ok(r) => r.flatten().map(|e| e.path()).collect(),
        Err(_) => return,
    };
    v.sort();
    for p in v {
        if p.is_dir() {
            if p.file_name().map_or(false, |n| n != "tests") {
                files(&p, out);
            }
        } else if p.extension().map_or(false, |e| e == "rs") {
            out.push(p);
        }
    }
}

pub fn add(nums: &mut Vec<u64>, texts: &mut Vec<String>) {
    let mut f = Vec::new();
    files(Path::new("/repo/src"), &mut f);
    for p in f {
        let s = std::fs::read_to_string(&p).unwrap_or_default();
        for l in s.lines() {
            let l = l.trim();
            if l.starts_with("#[cfg(test)]") {
                break;
            }
            if l.starts_with("//") || l.starts_with("#[") || l.starts_with("use ") {
                continue;
            }
            line(l, nums, texts);
        }
    }
    nums.sort();
    nums.dedup();
    texts.sort();
    texts.dedup();
    texts.truncate(300);
}

fn line(l: &str, nums: &mut Vec<u64>, texts: &mut Vec<String>) {
    let c: Vec<char> = l.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '/' && c.get(i + 1) == Some(&'/') {
            return;
        }
        if c[i] == '\'' {
            // a character literal
            if c.get(i + 1) == Some(&'\\') {
                i += 4;
                continue;
            }
            if c.get(i + 2) == Some(&'\'') {
                i += 3;
                continue;
            }
        }
        if c[i] == '"' {
            let mut t = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1;
                    match c.get(i) {
                        Some('n') => t.push('\n'),
                        Some(x) => t.push(*x),
                        None => {}
                    }
                } else {
                    t.push(c[i]);
                }
                i += 1;
            }
            i += 1;
            if t.len() >= 2 && t.len() < 64 && !t.contains('{') {
                texts.push(t);
            }
            continue;
        }
        if c[i].is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_' || c[i - 1] == '.')) {
            let mut total = number(&c, &mut i);
            // products and shifts of literals
            loop {
                let mut j = i;
                while c.get(j) == Some(&' ') {
                    j += 1;
                }
                let shift = c.get(j) == Some(&'<') && c.get(j + 1) == Some(&'<');
                if !shift && c.get(j) != Some(&'*') {
                    break;
                }
                j += 1 + shift as usize;
                while c.get(j) == Some(&' ') {
                    j += 1;
                }
                if !c.get(j).map_or(false, |x| x.is_ascii_digit()) {
                    break;
                }
                nums.extend(total);
                let v = number(&c, &mut j);
                total = match (total, v) {
                    (Some(a), Some(b)) if shift => a.checked_shl(b.min(255) as u32),
                    (Some(a), Some(b)) => a.checked_mul(b),
                    _ => None,
                };
                nums.extend(v);
                i = j;
            }
            nums.extend(total);
            continue;
        }
        i += 1;
    }
    nums.retain(|v| *v > 4);
}

fn number(c: &[char], i: &mut usize) -> Option<u64> {
    let mut t = String::new();
    while *i < c.len() && (c[*i].is_ascii_alphanumeric() || c[*i] == '_') {
        if c[*i] != '_' {
            t.push(c[*i]);
        }
        *i += 1;
    }
    match t.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(&h.chars().take_while(|c| c.is_ascii_hexdigit()).collect::<String>(), 16).ok(),
        None => match t.strip_prefix("0b") {
            Some(b) => u64::from_str_radix(&b.chars().take_while(|c| *c == '0' || *c == '1').collect::<String>(), 2).ok(),
            None => t.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok(),
        },
    }
}
