use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Out { pub s: String, nl: usize }

impl Out {
    pub fn new() -> Self { Out { s: String::new(), nl: 1 } }
    pub fn raw(&mut self, t: &str) { self.nl += t.matches('\n').count(); self.s.push_str(t); }
    pub fn line(&self) -> usize { self.nl }
    pub fn tokens(&mut self, t: &TokenStream) { let x = tt(t); self.raw(&x); }
    pub fn body(&mut self, t: &TokenStream, loops: &[String]) {
        let x = tt(t);
        // loop markers:  `__loop_spec ! (N) ;` printed inside the loop body's opening brace
        let mut res = String::new();
        let mut rest = x.as_str();
        while let Some(i) = rest.find("__loop_spec!(") {
            let before = &rest[..i];
            let st = i + "__loop_spec!(".len();
            let (mut depth, mut j) = (1i32, st);
            for (k, c) in rest[st..].char_indices() {
                match c { '(' => depth += 1, ')' => depth -= 1, _ => {} }
                if depth == 0 { j = st + k; break; }
            }
            let arg = &rest[st..j];
            let mut it = arg.splitn(3, ',');
            let n: usize = it.next().unwrap().trim().parse().unwrap();
            let auto = it.next().unwrap_or("").trim().to_string();
            let extra = it.next().unwrap_or("").trim().trim_end_matches(',').trim().to_string();
            // strip trailing `{` of the loop
            let b = before.trim_end();
            assert!(b.ends_with('{'), "loop marker misplaced");
            let head = b[..b.len() - 1].trim_end();
            let mut fixed = false; // the sequence walked does not change: `__v_x` remembers it
            match head.strip_suffix("loop") {
                Some(h) if !h.trim_end().ends_with(':') => {
                    res.push_str(h);
                    if !auto.is_empty() { res.push_str(&format!("let ghost __v_{0} = {0}.v@;\n", auto)); fixed = true; }
                    if !extra.is_empty() { res.push_str("#[verifier::allow_complex_invariants] "); }
                    res.push_str("loop ");
                }
                _ => res.push_str(&b[..b.len() - 1]),
            }
            let ov = loops.get(n).map(|s| s.as_str()).unwrap_or("");
            let (mut inv, mut dec) = (String::new(), String::new());
            // overlay loop text: everything before a line starting with `decreases` is the invariant list
            let mut mode = 0;
            for l in ov.lines() {
                let t = l.trim_start();
                if t.starts_with("decreases") { mode = 1; }
                if mode == 0 { inv.push_str(l); inv.push('\n'); } else { dec.push_str(l); dec.push('\n'); }
            }
            if !auto.is_empty() {
                // auto = iterator variable: keep it inside its sequence and use it as the measure
                inv = format!("invariant {0}.wf(),{2}\n{1}", auto, inv.trim_start().trim_start_matches("invariant"), if fixed { format!(" {0}.v@ == __v_{0},", auto) } else { String::new() });
                if !extra.is_empty() { inv = format!("invariant_except_break {},\n{}", extra.replace("__IT__", &auto), inv); }
                if dec.trim().is_empty() { dec = format!("decreases {}.rem()\n", auto); }
            }
            res.push_str("\n");
            res.push_str(&inv);
            res.push_str(&dec);
            res.push_str("{\n");
            let k = rest[j..].find(';').unwrap() + j + 1;
            rest = &rest[k..];
        }
        res.push_str(rest);
        // `__ghost_let!(a, b);` remembers a value before a loop
        while let Some(i) = res.find("__ghost_let!(") {
            let j = i + res[i..].find(')').unwrap();
            let (a, b) = { let x = &res[i + "__ghost_let!(".len()..j]; let (a, b) = x.split_once(',').unwrap(); (a.trim().to_string(), b.trim().to_string()) };
            let k = j + res[j..].find(';').unwrap();
            res.replace_range(i..k, &format!("let ghost {} = {}", a, b));
        }
        self.raw(&res);
    }
}

pub fn tt(t: &TokenStream) -> String {
    let mut s = String::new();
    go(t.clone(), &mut s, false);
    s
}

fn go(t: TokenStream, s: &mut String, in_paren: bool) {
    let mut prev_joint = false;
    let toks: Vec<TokenTree> = t.into_iter().collect();
    for (i, x) in toks.iter().enumerate() {
        match x {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if g.delimiter() == Delimiter::Brace {
                    if !s.ends_with(' ') && !s.ends_with('\n') { s.push(' '); }
                    s.push_str("{\n");
                    go(g.stream(), s, false);
                    s.push_str("\n}");
                    if !in_paren { s.push('\n'); } else { s.push(' '); }
                } else {
                    s.push_str(o);
                    go(g.stream(), s, true);
                    s.push_str(c);
                    s.push(' ');
                }
                prev_joint = false;
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if c == '!' && i > 0 && matches!(&toks[i - 1], TokenTree::Ident(_)) {
                    while s.ends_with(' ') { s.pop(); }
                }
                if c == '>' && s.ends_with("== ") { s.pop(); }
                s.push(c);
                prev_joint = p.spacing() == Spacing::Joint;
                if c == '\'' { prev_joint = true; }
                if !prev_joint {
                    if c == ';' && !in_paren { s.push('\n'); }
                    else if c == '!' && i > 0 && matches!(&toks[i - 1], TokenTree::Ident(_)) {}
                    else { s.push(' '); }
                }
            }
            TokenTree::Ident(id) => { s.push_str(&id.to_string()); s.push(' '); prev_joint = false; }
            TokenTree::Literal(l) => { s.push_str(&l.to_string()); s.push(' '); prev_joint = false; }
        }
    }
    let _ = prev_joint;
}
