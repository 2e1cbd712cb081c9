#![allow(dead_code)]
mod ast;
mod dump;
mod rt;
mod tmpl;
mod props;
mod corpus;
mod spec_constructs;
mod p_generic;
mod p_lex;
mod p_ops;
mod p_lit;
mod p_long;
mod p_rules;
mod p_scope;
mod p_warn;
mod p_nest;
mod p_tree;
mod p_word;
mod p_src;
mod p_inv;
mod refs;
mod spec_topics;
mod spec_variants;
mod spec_reject;
use std::io::BufRead;

#[no_mangle]
#[inline(never)]
pub extern "C" fn lrsym_cases(prop: u32, tier: u32) -> u32 {
    props::cases(prop, tier)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn lrsym_entry(prop: u32, tier: u32, case: u32) {
    props::entry(prop, tier, case)
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

/// native driver. Lines on stdin: `prop tier case holes-hex emit-hash emit-len`
/// (`-` instead of the hash: just run).
fn main() {
    let stdin = std::io::stdin();
    if std::env::args().nth(1).as_deref() == Some("gen") {
        // development only: what the parser gives for templates (one hex template per line)
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            println!("{}", props::gen(&unhex(&line)));
        }
        return;
    }
    if std::env::args().nth(1).as_deref() == Some("cases") {
        let a: Vec<u32> = std::env::args().skip(2).map(|x| x.parse().unwrap()).collect();
        println!("{}", props::cases(a[0], a[1]));
        return;
    }
    let mut ok = 0u64;
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split(' ').collect();
        let (p, t, c) = (f[0].parse().unwrap(), f[1].parse().unwrap(), f[2].parse().unwrap());
        let holes = unhex(f[3].trim_start_matches('x'));
        let n = holes.len();
        rt::native_begin(holes);
        lrsym_entry(p, t, c);
        let (h, l, bad, used) = rt::native_end();
        if f.len() > 4 && f[4] != "-" {
            if bad || used != n || f[4] != format!("{:016x}", h) || f[5] != l.to_string() {
                println!("MISMATCH {} native={:016x}/{} bad={} used={}", line, h, l, bad, used);
                std::process::exit(5);
            }
        } else {
            println!("OK {:016x} {} bad={} used={}", h, l, bad, used);
        }
        ok += 1;
    }
    println!("DONE {}", ok);
}
