//! C14, C15: literal parsing helpers against hand-written reference grammars.
use laps::lexer::{char_literal, int_literal, signed_int_literal, str_literal};
use std::fmt::Debug;
use vcommon::{guard_d, Rep};

/// Value of an integer literal; `None` when it is none, `Some(None)` above u128.
fn ref_uint(s: &str) -> Option<Option<u128>> {
  let cs: Vec<char> = s.chars().collect();
  let (radix, digits) = if cs.len() >= 2 && cs[0] == '0' && matches!(cs[1], 'b' | 'o' | 'x') {
    (match cs[1] { 'b' => 2, 'o' => 8, _ => 16 }, &cs[2..])
  } else {
    (10, &cs[..])
  };
  if digits.is_empty() {
    return None;
  }
  let mut v = Some(0u128);
  for c in digits {
    let d = match *c {
      c @ '0'..='9' => c as u32 - '0' as u32,
      c @ 'a'..='f' => c as u32 - 'a' as u32 + 10,
      c @ 'A'..='F' => c as u32 - 'A' as u32 + 10,
      _ => return None,
    };
    if d >= radix {
      return None;
    }
    v = v.and_then(|v| v.checked_mul(radix as u128)).and_then(|v| v.checked_add(d as u128));
  }
  Some(v)
}

macro_rules! int_types {
  ($rep:ident, $s:ident, $uint:ident, $signed:ident, $($t:ty)*) => {$(
    {
      let max = <$t>::MAX as u128;
      let want: Option<$t> = $uint.flatten().filter(|v| *v <= max).map(|v| v as $t);
      if !check($rep, concat!("int_literal::<", stringify!($t), ">"), $s, int_literal::<$t>, want) { return false; }
      let (neg, val) = $signed;
      let want: Option<$t> = val.flatten().filter(|v| *v <= max).map(|v| v as $t).map(|v| if neg { (0 as $t).wrapping_sub(v) } else { v });
      if !check($rep, concat!("signed_int_literal::<", stringify!($t), ">"), $s, signed_int_literal::<$t>, want) { return false; }
    }
  )*};
}

fn check<T: PartialEq + Debug>(rep: &mut Rep, name: &str, s: &str, f: impl Fn(&str) -> Option<T>, want: Option<T>) -> bool {
  match guard_d(|| format!("{name}({s:?})"), || f(s)) {
    Ok(got) => rep.eq(&got, &want, || format!("{name}({s:?})")),
    Err(p) => rep.ensure(false, || format!("{name}({s:?}): {p}")),
  }
}

fn int_case(rep: &mut Rep, s: &str) -> bool {
  let uint = ref_uint(s);
  let signed = match s.strip_prefix('-') {
    Some(r) => (true, ref_uint(r)),
    None => (false, ref_uint(s.strip_prefix('+').unwrap_or(s))),
  };
  rep.case(s, signed.1.is_some());
  rep.sample(|| format!("{s:?}"));
  int_types!(rep, s, uint, signed, i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);
  true
}

fn words(alpha: &[char], max: usize, pre: &str, suf: &str, mut f: impl FnMut(&str) -> bool) -> bool {
  let mut level = vec![String::new()];
  for len in 0..=max {
    let mut next = vec![];
    for w in &level {
      if !f(&format!("{pre}{w}{suf}")) {
        return false;
      }
      if len < max {
        for c in alpha {
          next.push(format!("{w}{c}"));
        }
      }
    }
    level = next;
  }
  true
}

fn to_radix(mut v: u128, radix: u128) -> String {
  let mut s = vec![];
  loop {
    s.push(b"0123456789abcdef"[(v % radix) as usize]);
    v /= radix;
    if v == 0 {
      break;
    }
  }
  s.reverse();
  String::from_utf8(s).unwrap()
}

pub fn c14(rep: &mut Rep) {
  let alpha = ['0', '1', '7', '8', '9', 'a', 'F', 'g', 'x', 'b', 'o', 'X', '+', '-', '_', ' ', '.', 'é', '٣', '\0'];
  let n = if rep.thorough { 4 } else { 3 };
  rep.bound(&format!("all texts of length <= {n} over {alpha:?}, and behind 0x, 0b, 0o, -, +0x; every type limit -2..+2 in four bases with leading zeros and signs; random texts up to 6000 digits"));
  for pre in ["", "0x", "0b", "0o", "-", "+0x", "-0b", "0", "--"] {
    let n = if pre.is_empty() { n + 1 } else { n };
    let mut ok = true;
    words(&alpha, n, pre, "", |s| {
      ok = int_case(rep, s);
      ok && (rep.time_left(0.6) || s.len() < 4)
    });
    if !ok {
      return;
    }
  }
  for bits in [7u32, 8, 15, 16, 31, 32, 63, 64, 127, 128] {
    let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    for d in -2i32..=2 {
      let v = if d < 0 { max - (-d) as u128 } else { match max.checked_add(d as u128) { Some(v) => v, None => continue } };
      for (p, r) in [("", 10), ("0x", 16), ("0b", 2), ("0o", 8)] {
        for zeros in ["", "0", "00000000000000000000000000000000000000000"] {
          for sign in ["", "-", "+"] {
            let s = format!("{sign}{p}{zeros}{}", to_radix(v, r));
            if !int_case(rep, &s) || !int_case(rep, &s.to_ascii_uppercase()) {
              return;
            }
          }
        }
      }
    }
  }
  for s in ["340282366920938463463374607431768211456", "0x100000000000000000000000000000000", "99999999999999999999999999999999999999999", "0b1_0", "1e5", "0x1p3", "１", "0x１", "+", "-", "0x", "0x-1", "-0x-1", "+-1", "é1", "-é"] {
    if !int_case(rep, s) {
      return;
    }
  }
  let mut rng = rep.rng(14);
  while rep.time_left(1.0) {
    let mut s = String::new();
    if rng.chance(1, 2) {
      s += *rng.pick(&["+", "-"]);
    }
    let r = *rng.pick(&[2u32, 8, 10, 16]);
    s += match r { 2 => "0b", 8 => "0o", 16 => "0x", _ => "" };
    let m = if rng.chance(1, 1000) { 6000 } else if rng.chance(1, 10) { 150 } else { 45 };
    if rng.chance(1, 50) {
      s.extend(vec!['0'; rng.below(2000)]);
    }
    for _ in 0..rng.range(1, m) {
      let d = char::from_digit(rng.below(r as usize) as u32, r).unwrap();
      s.push(if rng.chance(1, 3) { d.to_ascii_uppercase() } else { d });
    }
    if rng.chance(1, 4) {
      let at = rng.below(s.len() + 1);
      s.insert(at, *rng.pick(&alpha));
    }
    if !int_case(rep, &s) {
      return;
    }
  }
}

/// Reference grammar of literals: the items of `cs` up to the quote; `None` when malformed.
fn ref_items(cs: &[char], quote: char) -> Option<(Vec<char>, usize)> {
  let mut out = vec![];
  let mut i = 0;
  loop {
    match *cs.get(i)? {
      c if c == quote => return Some((out, i + 1)),
      '\n' | '\r' | '\t' => return None,
      '\\' => {
        match *cs.get(i + 1)? {
          'r' => out.push('\u{d}'),
          'n' => out.push('\u{a}'),
          't' => out.push('\u{9}'),
          '0' => out.push('\u{0}'),
          c @ ('\\' | '\'' | '"') => out.push(c),
          'x' => {
            let h = hex(*cs.get(i + 2)?)? * 16 + hex(*cs.get(i + 3)?)?;
            out.push(char::from_u32(h)?);
            i += 2;
          }
          'u' => {
            if *cs.get(i + 2)? != '{' {
              return None;
            }
            let mut j = i + 3;
            let mut v: u64 = 0;
            let mut digits = 0;
            while *cs.get(j)? != '}' {
              v = (v * 16 + hex(cs[j])? as u64).min(1 << 40);
              digits += 1;
              j += 1;
            }
            if digits == 0 {
              return None;
            }
            out.push(char::from_u32(u32::try_from(v).ok()?)?);
            i = j - 1;
          }
          _ => return None,
        }
        i += 2;
      }
      c => {
        out.push(c);
        i += 1;
      }
    }
  }
}

fn hex(c: char) -> Option<u32> {
  Some(match c {
    '0'..='9' => c as u32 - 48,
    'a'..='f' => c as u32 - 87,
    'A'..='F' => c as u32 - 55,
    _ => return None,
  })
}

fn ref_str(s: &str) -> Option<String> {
  let cs: Vec<char> = s.chars().collect();
  if *cs.first()? != '"' {
    return None;
  }
  let (items, used) = ref_items(&cs[1..], '"')?;
  (used == cs.len() - 1).then(|| items.into_iter().collect())
}

fn ref_char(s: &str) -> Option<char> {
  let cs: Vec<char> = s.chars().collect();
  if *cs.first()? != '\'' {
    return None;
  }
  let (items, used) = ref_items(&cs[1..], '\'')?;
  (used == cs.len() - 1 && items.len() == 1).then(|| items[0])
}

fn lit_case(rep: &mut Rep, s: &str) -> bool {
  rep.case(s, s.starts_with(['"', '\'']));
  rep.sample(|| format!("{s:?}"));
  check(rep, "str_literal", s, str_literal, ref_str(s)) && check(rep, "char_literal", s, char_literal, ref_char(s))
}

pub fn c15(rep: &mut Rep) {
  let alpha = ['"', '\'', '\\', 'n', 'x', 'u', '{', '}', '0', 'a', '\n', 'd', '8', 'é'];
  let n = if rep.thorough { 5 } else { 4 };
  rep.bound(&format!("all texts of length <= {n} over {alpha:?}, bare, between either quotes and behind an opening escape; all two-digit and four-digit hexadecimal escapes at every 257th value; random literals up to 3000 items"));
  let pres = [("", ""), ("\"", "\""), ("'", "'"), ("\"", ""), ("'", ""), ("'\\", "'"), ("\"\\x", "\""), ("'\\x", "'"), ("\"\\u{", "}\""), ("'\\u{", "}'"), ("'\\u", "'")];
  for (k, (pre, suf)) in pres.iter().enumerate() {
    let n = if k == 1 || k == 2 { n } else { n - 1 };
    let mut ok = true;
    words(&alpha, n, pre, suf, |s| {
      ok = lit_case(rep, s);
      ok && rep.time_left(0.7)
    });
    if !ok {
      return;
    }
  }
  // every single character as an item, as an escape letter, and in hexadecimal escapes
  for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
    if c as u32 > 0x400 && c as u32 % 257 != 0 && !(0xd7f0..=0xe010).contains(&(c as u32)) && (c as u32) < 0x10fff0 && !rep.thorough {
      continue;
    }
    for s in [format!("'{c}'"), format!("\"{c}\""), format!("'\\{c}'"), format!("\"\\{c}\""), format!("'\\x{c}a'"), format!("'\\xa{c}'"), format!("'\\u{{{c}}}'"), format!("'\\u{{4{c}}}'")] {
      if !lit_case(rep, &s) {
        return;
      }
    }
  }
  for v in (0..=0x110010u32).filter(|v| *v < 0x200 || v % 257 == 0 || (0xd7f0..0xe010).contains(v) || *v > 0x10fff0).chain([0x7fffffff, 0xffffffff]) {
    for s in [format!("'\\u{{{v:x}}}'"), format!("\"\\u{{{v:X}}}\""), format!("'\\u{{00000000000{v:x}}}'"), format!("'\\u{{{v:x}0}}'"), format!("'\\u{{1000000{v:x}}}'"), format!("'\\x{v:x}'"), format!("\"\\x{v:02X}\"")] {
      if !lit_case(rep, &s) {
        return;
      }
    }
  }
  let mut rng = rep.rng(15);
  while rep.time_left(1.0) {
    let q = *rng.pick(&['"', '\'']);
    let mut s = String::from(q);
    let n = if rng.chance(1, 2) { 1 } else if rng.chance(1, 100) { rng.range(60, 3000) } else { rng.range(0, 60) };
    for _ in 0..n {
      match rng.below(8) {
        0 => s += *rng.pick(&["\\r", "\\n", "\\t", "\\0", "\\\\", "\\'", "\\\""]),
        1 => s += &format!("\\x{:02x}", rng.below(256)),
        2 => {
          let w = if rng.chance(1, 50) { rng.below(400) } else { rng.below(9) };
          let top = if rng.chance(1, 3) { 1 << 33 } else { 0x111000 };
          s += &format!("\\u{{{:0w$x}}}", rng.below(top))
        }
        3 => s.push(char::from_u32(rng.below(0x110000) as u32).unwrap_or('z')),
        4 => s.push(if q == '"' { '\'' } else { '"' }),
        _ => s.push((b' ' + rng.below(95) as u8) as char),
      }
    }
    s.push(q);
    if rng.chance(1, 4) {
      let at = rng.below(s.chars().count() + 1);
      let b = s.char_indices().nth(at).map_or(s.len(), |x| x.0);
      if rng.chance(1, 2) {
        s.insert(b, *rng.pick(&alpha));
      } else {
        s.truncate(b);
      }
    }
    if !lit_case(rep, &s) {
      return;
    }
  }
}
