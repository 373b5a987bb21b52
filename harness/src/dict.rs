//! Literals of the library's source text, as suggestions for the generators.
//! What the library compares its input with is likely to be among them. Those
//! which the tree didn't have when the harness was written are preferred.
//! They only choose what is tried; verdicts don't depend on them.

use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

use crate::engine::Src;

const KNOWN: &str = include_str!("../literals.txt");

#[derive(Default, Debug)]
pub struct Dict {
    pub new_numbers: Vec<u64>,
    pub new_texts: Vec<String>,
    pub numbers: Vec<u64>,
    pub texts: Vec<String>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get_or_init(Dict::default)
}

/// Literals of the source files beneath the folder.
pub fn scan(folder: &Path) -> (BTreeSet<u64>, BTreeSet<String>) {
    let mut out = (BTreeSet::new(), BTreeSet::new());
    let mut folders = vec![folder.to_path_buf()];

    while let Some(folder) = folders.pop() {
        for entry in std::fs::read_dir(&folder).into_iter().flatten().flatten() {
            let path = entry.path();

            if path.is_dir() {
                folders.push(path);
            } else if path.extension().is_some_and(|ext| ext == "rs") {
                if let Ok(text) = std::fs::read_to_string(&path) {
                    literals(&text, &mut out.0, &mut out.1);
                }
            }
        }
    }

    out
}

/// Read the literals before the process gives up its rights.
pub fn load(folder: &Path) {
    let (numbers, texts) = scan(folder);

    let known = KNOWN.lines()
        .filter_map(|line| serde_json::from_str::<serde_json::Value>(line).ok())
        .collect::<Vec<_>>();

    let known_numbers = known.iter().filter_map(|v| v.as_u64()).collect::<BTreeSet<_>>();
    let known_texts = known.iter().filter_map(|v| v.as_str()).map(String::from).collect::<BTreeSet<_>>();

    let _ = DICT.set(Dict {
        new_numbers: numbers.difference(&known_numbers).copied().collect(),
        new_texts: texts.difference(&known_texts).cloned().collect(),
        numbers: known_numbers.into_iter().collect(),
        texts: known_texts.into_iter().collect(),
    });
}

/// Lines of the file of known literals.
pub fn listed(folder: &Path) -> String {
    let (numbers, texts) = scan(folder);
    let numbers = numbers.iter().map(|n| n.to_string());
    let texts = texts.iter().map(|t| serde_json::to_string(t).unwrap_or_default());

    numbers.chain(texts).map(|line| line + "\n").collect()
}

fn literals(text: &str, numbers: &mut BTreeSet<u64>, texts: &mut BTreeSet<String>) {
    let text = text.split("#[cfg(test)]").next().unwrap_or_default();
    let chars = text.chars().collect::<Vec<_>>();
    let at = |i: usize| chars.get(i).copied().unwrap_or('\0');
    let mut i = 0;

    // Number before an operator which awaits its other side
    let mut left = None::<(u64, char)>;

    while i < chars.len() {
        let c = at(i);
        let mut operator = None;
        let mut number = None;

        if c == '/' && at(i + 1) == '/' {
            while i < chars.len() && at(i) != '\n' { i += 1; }
        } else if c == '/' && at(i + 1) == '*' {
            i += 2;
            while i < chars.len() && !(at(i) == '*' && at(i + 1) == '/') { i += 1; }
            i += 2;
        } else if c.is_alphabetic() || c == '_' {
            let start = i;
            while at(i).is_alphanumeric() || at(i) == '_' { i += 1; }
            let word = chars[start..i].iter().collect::<String>();

            // Raw strings
            if matches!(word.as_str(), "r" | "br") && (at(i) == '"' || at(i) == '#') {
                let hashes = (i..).take_while(|j| at(*j) == '#').count();

                if at(i + hashes) == '"' {
                    let from = i + hashes + 1;
                    let mut to = from;

                    while to < chars.len() && !(at(to) == '"' && (1..=hashes).all(|k| at(to + k) == '#')) { to += 1; }

                    texts.insert(chars[from.min(chars.len())..to].iter().collect());
                    i = to + 1 + hashes;
                }
            } else {
                // Limits of the integer types are written as paths or casts
                let before = chars[..start].iter().rev().take(4).rev().collect::<String>();
                let after = chars[i..].iter().take(5).collect::<String>();

                number = match (bits(&word), after.as_str()) {
                    (Some(n), "::MAX") => {
                        i += 5;
                        Some(n)
                    }

                    (Some(n), _) if before == " as " && n < 1 << 33 => {
                        numbers.insert(n);
                        None
                    }

                    _ => None,
                };
            }
        } else if c.is_ascii_digit() {
            let start = i;
            while at(i).is_alphanumeric() || at(i) == '_' { i += 1; }
            let word = chars[start..i].iter().filter(|c| **c != '_').collect::<String>();
            number = parsed(&word);
        } else if c == '"' {
            let (value, next) = quoted(&chars, i + 1, '"');
            texts.insert(value);
            i = next;
        } else if c == '\'' {
            // Lifetimes have no closing quote
            if at(i + 1) == '\\' || at(i + 2) == '\'' {
                let (value, next) = quoted(&chars, i + 1, '\'');

                if let Some(c) = value.chars().next() {
                    numbers.insert(c as u64);
                }

                texts.insert(value);
                i = next;
            } else {
                i += 1;
            }
        } else if c == '<' && at(i + 1) == '<' {
            operator = Some('<');
            i += 2;
        } else if matches!(c, '*' | '+' | '-') {
            operator = Some(c);
            i += 1;
        } else {
            i += 1;
        }

        if let Some(n) = number {
            numbers.insert(n);

            let joined = match left {
                Some((l, '<')) => u32::try_from(n).ok().filter(|n| *n < 64).map(|n| l << n),
                Some((l, '*')) => l.checked_mul(n),
                Some((l, '+')) => l.checked_add(n),
                Some((l, '-')) => l.checked_sub(n),
                _ => None,
            };

            numbers.extend(joined);
            left = Some((joined.unwrap_or(n), ' '));
        } else if let Some(op) = operator {
            left = left.map(|(n, _)| (n, op));
        } else if !c.is_whitespace() {
            left = None;
        }
    }
}

fn bits(word: &str) -> Option<u64> {
    match word {
        "u8" => Some(u8::MAX as u64),
        "i8" => Some(i8::MAX as u64),
        "u16" => Some(u16::MAX as u64),
        "i16" => Some(i16::MAX as u64),
        "u32" => Some(u32::MAX as u64),
        "i32" => Some(i32::MAX as u64),
        "i64" | "isize" => Some(i64::MAX as u64),
        _ => None,
    }
}

fn parsed(word: &str) -> Option<u64> {
    let (digits, radix) = match word.get(..2) {
        Some("0x") => (&word[2..], 16),
        Some("0b") => (&word[2..], 2),
        Some("0o") => (&word[2..], 8),
        _ => (word, 10),
    };

    // Suffixes start with a letter which is no digit
    let end = digits.find(|c: char| !c.is_digit(radix)).unwrap_or(digits.len());

    u64::from_str_radix(&digits[..end], radix).ok()
}

fn quoted(chars: &[char], mut i: usize, end: char) -> (String, usize) {
    let mut out = String::new();

    while i < chars.len() && chars[i] != end {
        if chars[i] != '\\' {
            out.push(chars[i]);
            i += 1;
            continue;
        }

        let next = chars.get(i + 1).copied().unwrap_or('\0');
        i += 2;

        match next {
            'n' => out.push('\n'),
            'r' => out.push('\r'),
            't' => out.push('\t'),
            '0' => out.push('\0'),
            '\n' => while chars.get(i).is_some_and(|c| c.is_whitespace()) { i += 1; },

            'x' => {
                let code = chars.iter().skip(i).take(2).collect::<String>();
                out.extend(u32::from_str_radix(&code, 16).ok().and_then(char::from_u32));
                i += 2;
            }

            'u' => {
                let code = chars.iter().skip(i + 1).take_while(|c| **c != '}').collect::<String>();
                out.extend(u32::from_str_radix(&code.replace('_', ""), 16).ok().and_then(char::from_u32));
                i += code.chars().count() + 2;
            }

            other => out.push(other),
        }
    }

    (out, i + 1)
}

// --------------------------------------------------------------- suggestions

/// At times a number of the source, or one next to it.
pub fn number(src: &mut Src) -> Option<u64> {
    let dict = dict();
    let roll = src.below(120);

    let base = if roll >= 105 && !dict.new_numbers.is_empty() {
        *src.pick(&dict.new_numbers)
    } else if roll == 104 && !dict.numbers.is_empty() {
        *src.pick(&dict.numbers)
    } else {
        return None;
    };

    Some(match src.below(8) {
        0..=3 => base,
        4 => base.saturating_add(1),
        5 => base.saturating_sub(1),
        6 => base.saturating_mul(2),
        _ => base.saturating_add(src.below(10)),
    })
}

/// Count suggested by the source which the usual ones, up to `usual`, don't
/// reach; it's at most `max`. There's none, as a rule.
pub fn count(src: &mut Src, usual: u64, max: u64) -> Option<u64> {
    let fitting = dict().new_numbers.iter().filter(|n| (usual..=max).contains(*n)).collect::<Vec<_>>();

    if fitting.is_empty() || !src.chance(1, 30) {
        return None;
    }

    let base = **src.pick(&fitting);

    Some((base + src.below(4)).saturating_sub(1).min(max))
}

/// At times a text of the source, alone or with some more.
pub fn words(src: &mut Src, max: usize, more: fn(&mut Src, usize) -> String) -> Option<String> {
    let dict = dict();
    let roll = src.below(120);

    let base = if roll >= 108 && !dict.new_texts.is_empty() {
        src.pick(&dict.new_texts).clone()
    } else if roll == 107 && !dict.texts.is_empty() {
        src.pick(&dict.texts).clone()
    } else if roll == 106 && !dict.new_numbers.is_empty() {
        // That number of characters, or the number itself
        let n = *src.pick(&dict.new_numbers);

        if src.bool() && n < 100_000 {
            return Some("a".repeat(n as usize + src.usize(2)));
        }

        n.to_string()
    } else {
        return None;
    };

    let mut text = match src.below(7) {
        0..=2 => base,
        3 => base.to_uppercase(),
        4 => more(src, 8) + &base,
        5 => base + &more(src, 8),
        _ => more(src, 4) + &base + &more(src, 4),
    };

    while text.len() > max.max(1) * 4 { text.pop(); }

    Some(text)
}

/// Some text of the source, likely one which wasn't there before.
pub fn word(src: &mut Src) -> String {
    let dict = dict();

    match src.below(4) {
        0 => String::new(),
        1 if !dict.texts.is_empty() => src.pick(&dict.texts).clone(),
        _ if !dict.new_texts.is_empty() => src.pick(&dict.new_texts).clone(),
        _ => String::new(),
    }
}
