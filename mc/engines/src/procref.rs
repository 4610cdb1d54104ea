//! Caps-words processing written from the README, and the documented decoding.

pub const CAP: char = '\x14';
pub const ALLCAPS: char = '\x15';
pub const EOW: char = '\x16';

/// Lower-casing can be undone by upper-casing.
fn undone(s: &str) -> bool {
    s.to_lowercase().to_uppercase() == s
}

fn encode_word(w: &str) -> String {
    let chars: Vec<char> = w.chars().collect();
    let first = chars[0];
    let mut r = String::new();
    let f = first.to_string();
    if first.is_uppercase() && chars[1..].iter().all(|c| c.is_lowercase()) && undone(&f) {
        r.push(CAP);
        r.push_str(&f.to_lowercase());
        r.extend(&chars[1..]);
    } else if chars.len() >= 2 && chars.iter().all(|c| c.is_uppercase()) && undone(w) {
        r.push(ALLCAPS);
        r.push_str(&w.to_lowercase());
    } else {
        r.push_str(w);
    }
    r.push(EOW);
    r
}

/// Splits the text into words and single other characters, encodes the words
/// and leaves out every space whose both neighbours are words.
pub fn process(text: &str) -> String {
    enum Item {
        Word(String),
        Other(char),
    }
    let mut items: Vec<Item> = vec![];
    for c in text.chars() {
        if c.is_alphabetic() {
            if let Some(Item::Word(w)) = items.last_mut() {
                w.push(c);
            } else {
                items.push(Item::Word(c.to_string()));
            }
        } else {
            items.push(Item::Other(c));
        }
    }
    let mut out = String::new();
    for (i, it) in items.iter().enumerate() {
        match it {
            Item::Word(w) => out.push_str(&encode_word(w)),
            Item::Other(' ') if i > 0 && matches!(items[i - 1], Item::Word(_)) && matches!(items.get(i + 1), Some(Item::Word(_))) => {}
            Item::Other(c) => out.push(*c),
        }
    }
    out
}

/// The documented decoding. Independent of how words were classified.
pub fn decode(p: &str) -> Result<String, String> {
    let chars: Vec<char> = p.chars().collect();
    let starts_word = |c: Option<&char>| c.map_or(false, |&c| c == CAP || c == ALLCAPS || c.is_alphabetic());
    let mut out = String::new();
    let mut i = 0;
    while i < chars.len() {
        match chars[i] {
            CAP => {
                i += 1;
                let c = chars.get(i).ok_or("capitalised marker at the end")?;
                if !c.is_alphabetic() {
                    return Err("capitalised marker without a letter".into());
                }
                out.extend(c.to_uppercase());
                i += 1;
            }
            ALLCAPS => {
                i += 1;
                let s = i;
                while i < chars.len() && chars[i].is_alphabetic() {
                    i += 1;
                }
                if s == i {
                    return Err("all-caps marker without a word".into());
                }
                let w: String = chars[s..i].iter().collect();
                out.push_str(&w.to_uppercase());
            }
            EOW => {
                i += 1;
                if starts_word(chars.get(i)) {
                    out.push(' ');
                }
            }
            c => {
                out.push(c);
                i += 1;
            }
        }
    }
    Ok(out)
}

#[cfg(test)]
mod tests {
    #[test]
    fn readme() {
        assert_eq!(super::process("Hello WORLD, a b"), "\x14hello\x16\x15world\x16, a\x16b\x16");
    }
}
