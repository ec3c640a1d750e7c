//! C31: the text files that quadrature rules are read from, and the rules that the library makes of them.
use fenris_quadrature::polyquad;
use hk::*;
use polyquad_parse::{parse2d, parse3d};

/// A decimal number, by hand: sign, digits with at most one point and at least one digit, optional exponent.
fn number(t: &str) -> Option<f64> {
    let b = t.as_bytes();
    let mut i = 0;
    let neg = match b.first() {
        Some(b'-') => {
            i += 1;
            true
        }
        Some(b'+') => {
            i += 1;
            false
        }
        _ => false,
    };
    let (mut m, mut scale, mut digits, mut point) = (0u64, 0i32, 0, false);
    while i < b.len() {
        match b[i] {
            c @ b'0'..=b'9' => {
                m = m * 10 + (c - b'0') as u64;
                digits += 1;
                scale -= point as i32;
            }
            b'.' if !point => point = true,
            _ => break,
        }
        i += 1;
    }
    if digits == 0 {
        return None;
    }
    if i < b.len() {
        if b[i] != b'e' && b[i] != b'E' {
            return None;
        }
        i += 1;
        let mut down = false;
        if i < b.len() && (b[i] == b'-' || b[i] == b'+') {
            down = b[i] == b'-';
            i += 1;
        }
        if i == b.len() || !b[i..].iter().all(|c| c.is_ascii_digit()) {
            return None;
        }
        let e = b[i..].iter().fold(0i32, |e, c| (e * 10 + (c - b'0') as i32).min(10_000));
        scale += if down { -e } else { e };
    }
    // exact as long as the digits and the power of ten are small
    assert!(m < 1 << 53);
    let x = match scale {
        0..=22 => m as f64 * 10f64.powi(scale),
        -22..=-1 => m as f64 / 10f64.powi(-scale),
        _ if m == 0 => 0.0,
        _ if scale > 330 => f64::INFINITY,
        _ if scale < -360 => 0.0,
        _ => format!("{m}e{scale}").parse().unwrap(),
    };
    Some(if neg { -x } else { x })
}

type Read = Option<Vec<Vec<f64>>>;

/// What a text says: the entries of each line that is not blank; None if one of them is not a number or they are not `n`.
fn reading(text: &str, n: usize) -> Read {
    let blank = |c: char| matches!(c, ' ' | '\t' | '\r' | '\x0c');
    let mut out = vec![];
    for line in text.split('\n') {
        let entries: Vec<&str> = line.split(blank).filter(|t| !t.is_empty()).collect();
        if entries.is_empty() {
            continue;
        }
        let row: Option<Vec<f64>> = entries.iter().map(|t| number(t)).collect();
        match row {
            Some(r) if r.len() == n => out.push(r),
            _ => return None,
        }
    }
    Some(out)
}

fn bits(r: &Read) -> Option<Vec<Vec<u64>>> {
    r.as_ref().map(|r| r.iter().map(|l| l.iter().map(|x| x.to_bits()).collect()).collect())
}

fn rows<const D: usize>(points: &[[f64; D]], weights: &[f64]) -> Result<Read, String> {
    ensure_eq!(points.len(), weights.len(), "number of points and weights");
    Ok(Some(points.iter().zip(weights).map(|(p, w)| p.iter().copied().chain([*w]).collect()).collect()))
}

/// The number of rules (of two) that the text is.
fn check(text: &str) -> Result<u64, String> {
    let two = match no_panic(|| parse2d(text))? {
        Ok(r) => rows(&r.points, &r.weights)?,
        Err(e) => {
            no_panic(|| e.to_string())?;
            None
        }
    };
    let three = match no_panic(|| parse3d(text))? {
        Ok(r) => rows(&r.points, &r.weights)?,
        Err(e) => {
            no_panic(|| e.to_string())?;
            None
        }
    };
    let mut n = 0;
    for (dim, got) in [(2, two), (3, three)] {
        let want = reading(text, dim + 1);
        n += want.as_ref().is_some_and(|w| !w.is_empty()) as u64;
        ensure!(bits(&got) == bits(&want), "{text:?} as a rule in {dim}D is read as {got:?} instead of {want:?}");
    }
    Ok(n)
}

const SHIPPED: &str = "/repo/fenris-quadrature/rules/polyquad/expanded";

/// strength and text of all files of a domain
fn shipped(domain: &str) -> Vec<(usize, usize, String)> {
    let mut out = vec![];
    for f in std::fs::read_dir(format!("{SHIPPED}/{domain}")).expect("rule files") {
        let f = f.expect("rule file");
        let name = f.file_name().to_string_lossy().to_string();
        let Some(stem) = name.strip_suffix(".txt") else { continue };
        let Some((a, b)) = stem.split_once('-') else { continue };
        let (Ok(a), Ok(b)) = (a.parse(), b.parse()) else { continue };
        out.push((a, b, std::fs::read_to_string(f.path()).expect("rule file")));
    }
    out.sort();
    out
}

fn offered(domain: &str, s: usize) -> Result<Read, String> {
    fn go<const D: usize>(r: Result<fenris_quadrature::Rule<D>, fenris_quadrature::Error>) -> Result<Read, String> {
        match r {
            Ok((w, p)) => rows(&p, &w),
            Err(_) => Ok(None),
        }
    }
    match domain {
        "tri" => go(no_panic(|| polyquad::triangle(s))?),
        "quad" => go(no_panic(|| polyquad::quadrilateral(s))?),
        "tet" => go(no_panic(|| polyquad::tetrahedron(s))?),
        "hex" => go(no_panic(|| polyquad::hexahedron(s))?),
        "pri" => go(no_panic(|| polyquad::prism(s))?),
        _ => go(no_panic(|| polyquad::pyramid(s))?),
    }
}

fn main() {
    let ctx = Ctx::new(
        "C31",
        Level::FaultEnumeration,
        "every text over small alphabets of characters and of words, and every damage of a shipped rule file within bounds, is read as exactly the numbers that it names or refused; and the rules offered for a strength are those of the shipped file of the smallest sufficient strength",
    );
    // every text of so many characters
    let chars: [char; 9] = ['1', ' ', '\n', '.', '-', 'e', '\r', '0', 'x'];
    let small = &chars[..ctx.tier(8, 9)];
    for len in 0..=ctx.tier(6u32, 7) {
        let n = pow(small.len() as u64, len);
        let text = |mut i: u64| -> String {
            (0..len)
                .map(|_| {
                    let c = small[(i % small.len() as u64) as usize];
                    i /= small.len() as u64;
                    c
                })
                .collect()
        };
        ctx.suite(&format!("texts of {len} characters"), n, |i| format!("{:?}", text(i)), |i| {
            let t = text(i);
            let k = check(&t)?;
            Ok((k > 0).then(|| digest(&t)))
        });
    }
    // every text of fewer kinds of characters, so that longer ones are complete rules
    let few: [char; 4] = ['7', ' ', '\n', '-'];
    for len in ctx.tier(8u32, 8)..=ctx.tier(9u32, 11) {
        let text = |mut i: u64| -> String {
            (0..len)
                .map(|_| {
                    let c = few[(i % 4) as usize];
                    i /= 4;
                    c
                })
                .collect()
        };
        ctx.suite(&format!("texts of {len} characters of four kinds"), pow(4, len), |i| format!("{:?}", text(i)), |i| {
            let t = text(i);
            let k = check(&t)?;
            Ok((k > 0).then(|| digest(&t)))
        });
    }
    // every list of words
    let words = ["0.25", "-3", "1e-3", ".5", "2.", "+1E2", "-0", "1,5", "1.2.3", "x", "0x1", "1_000", "--1", "1e", "\u{a0}1", "#", "\u{663}"];
    let seps = [" ", "\t", "   ", " \t "];
    let ends = ["\n", "\r\n", "\n\n", " \n \n", ""];
    let w = ctx.tier(words.len() as u64, words.len() as u64);
    for k in 0..=5u32 {
        let menu = if k < 5 || ctx.thorough { w } else { 9 };
        let n = pow(menu, k) * (seps.len() * ends.len()) as u64;
        let text = |i: u64| {
            let mut d = Dig(i);
            let (sep, end) = (*d.pick(&seps), *d.pick(&ends));
            let line: Vec<&str> = (0..k).map(|_| words[d.next(menu)]).collect();
            let lead = if sep.len() > 1 { sep } else { "" };
            format!("{lead}{}{end}", line.join(sep))
        };
        ctx.suite(&format!("lines of {k} words"), n, |i| format!("{:?}", text(i)), |i| {
            let t = text(i);
            let c = check(&t)?;
            Ok((c > 0).then(|| digest(&t)))
        });
    }
    // every sequence of lines, each of them right or wrong in one way
    let lines = ["1 2 3", "-4 5.5 6e1", "7 8 9 10", ".5 -6 7 8", "", "  \t", "1 2", "1 2 3 4 5", "1 2 x", "x", "1 2 3,4", "\t1\t2\t3 "];
    for k in 1..=ctx.tier(4u32, 5) {
        let n = pow(lines.len() as u64, k) * 3;
        let text = |i: u64| {
            let mut d = Dig(i);
            let end = *d.pick(&["\n", "\r\n", ""]);
            let l: Vec<&str> = (0..k).map(|_| *d.pick(&lines)).collect();
            let sep = if end == "\r\n" { "\r\n" } else { "\n" };
            format!("{}{end}", l.join(sep))
        };
        ctx.suite(&format!("{k} lines"), n, |i| format!("{:?}", text(i)), |i| {
            let t = text(i);
            let c = check(&t)?;
            Ok((c > 0).then(|| digest(&t)))
        });
    }
    // the files that come with the library
    let domains = ["tri", "quad", "tet", "hex", "pri", "pyr"];
    let files: Vec<(&str, usize, usize, String)> = domains.iter().flat_map(|d| shipped(d).into_iter().map(move |(a, b, t)| (*d, a, b, t))).collect();
    let parse = |d: &str, t: &str| -> Result<Read, String> {
        if d == "tri" || d == "quad" {
            match no_panic(|| parse2d(t))? {
                Ok(r) => rows(&r.points, &r.weights),
                Err(_) => Ok(None),
            }
        } else {
            match no_panic(|| parse3d(t))? {
                Ok(r) => rows(&r.points, &r.weights),
                Err(_) => Ok(None),
            }
        }
    };
    let width = |d: &str| if d == "tri" || d == "quad" { 3 } else { 4 };
    let wanted = |d: &str, t: &str| -> Read {
        t.lines()
            .map(|l| l.split_whitespace().map(|x| x.parse::<f64>().ok()).collect::<Option<Vec<f64>>>())
            .filter(|l| l.as_ref().map_or(true, |l| !l.is_empty()))
            .map(|l| l.filter(|l| l.len() == width(d)))
            .collect()
    };
    ctx.suite("shipped files", files.len() as u64, |i| format!("{} {}-{}", files[i as usize].0, files[i as usize].1, files[i as usize].2), |i| {
        let (d, s, n, t) = &files[i as usize];
        let got = parse(d, t)?;
        let want = wanted(d, t);
        ensure!(want.as_ref().is_some_and(|w| w.len() == *n), "the file does not have {n} points");
        ensure!(bits(&got) == bits(&want), "read as {got:?}");
        // damage: each of the first and last lines loses or gains an entry, or gets one that is not a number
        let lines: Vec<&str> = t.lines().collect();
        for at in (0..lines.len()).filter(|a| *a < 3 || a + 3 >= lines.len()) {
            for e in 0..=width(d) {
                for kind in 0..4 {
                    let mut w: Vec<String> = lines[at].split_whitespace().map(|x| x.to_string()).collect();
                    match kind {
                        0 if e < w.len() => drop(w.remove(e)),
                        1 if e < w.len() => w[e].push('?'),
                        2 => w.insert(e.min(w.len()), "0.5".into()),
                        3 if e < w.len() => w[e].insert(0, '-'),
                        _ => continue,
                    }
                    let line = w.join(" ");
                    let mut l = lines.clone();
                    l[at] = &line;
                    let t = l.join("\n");
                    ensure!(bits(&parse(d, &t)?) == bits(&wanted(d, &t)), "line {at} changed to {line:?} is not read for what it is");
                }
            }
        }
        Ok(Some(digest(&(d, s))))
    });
    let strengths: Vec<(&str, usize)> = domains.iter().flat_map(|d| (0..60).chain([255, 256, 257, 1 << 20, u32::MAX as usize, usize::MAX]).map(move |s| (*d, s))).collect();
    ctx.suite_over("rules offered", &strengths, |(d, s)| format!("{d}, strength {s}"), |(d, s)| {
        let of_domain: Vec<_> = files.iter().filter(|f| f.0 == *d && f.1 >= *s).collect();
        let least = of_domain.iter().map(|f| f.1).min();
        let got = offered(d, *s)?;
        // (of several files of one strength, the library may use any)
        let fits: Vec<Read> = of_domain.iter().filter(|f| Some(f.1) == least).map(|f| wanted(d, &f.3)).collect();
        match least {
            None => ensure!(got.is_none(), "a rule although none is strong enough"),
            Some(s) => ensure!(fits.iter().any(|w| bits(w) == bits(&got)), "not the rule of strength {s}: {got:?}"),
        }
        Ok(least.map(|_| digest(&(d, s))))
    });
    ctx.finish()
}
