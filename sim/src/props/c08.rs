//! Load order of schema files does not change what is loaded.
use super::*;
use crate::schema::{self, Bad, Cfg, FileD};
use protofish::context::{Package, ParseError, TypeParent};

enum E {
    File(usize),
}

/// Files are fetched from several places at once; they are loaded in the order they arrive.
fn arrivals(set: &[usize]) -> Vec<usize> {
    let mut q = Queue::new();
    for (i, f) in set.iter().enumerate() {
        // Zero choices keep the order of the listing.
        q.push(i as u64 + below(40), E::File(*f));
    }
    let mut v = vec![];
    let t0 = sh().sim_us;
    while let Some(E::File(f)) = q.pop() {
        sh().sim_us = t0 + q.now * 1000;
        seam::clock_set(t0 + q.now * 1000);
        ev(80, f as u64, q.now);
        v.push(f);
    }
    if v != set {
        F::DOrder.hit();
    }
    v
}

pub fn run() -> R {
    let mut cfg = Cfg::draw(true);
    if chance(1, 60) {
        cfg.swell = pick(&[300, 70, 600, 260]);
    }
    let files = schema::files(cfg);
    let texts: Vec<String> = files.iter().map(schema::render).collect();
    for (i, t) in texts.iter().enumerate() {
        tr!("--- file {}\n{}", i, t);
    }
    let all: Vec<usize> = (0..files.len()).collect();
    let mut sets = vec![all.clone()];
    for _ in 0..pick(&[1, 0, 2]) {
        let mut s = all.clone();
        for _ in 0..range(1, 2) {
            if chance(1, 2) && s.len() > 1 {
                F::DLost.hit();
                s.remove(us(s.len()));
            } else {
                F::DDouble.hit();
                let f = s[us(s.len())];
                s.insert(range(0, s.len()), f);
            }
        }
        sets.push(s);
    }
    for set in sets {
        let orders = if set.len() == 1 { 1 } else { pick(&[3, 2, 5]) };
        for k in 0..orders {
            let mut order = arrivals(&set);
            if k == 1 {
                order.reverse();
            }
            load(&files, &texts, &order)?;
        }
        sh().nontrivial += (set.len() > 1) as u64;
    }
    Ok(())
}

fn load(files: &[FileD], texts: &[String], order: &[usize]) -> R {
    let refs: Vec<&FileD> = order.iter().map(|i| &files[*i]).collect();
    let model = schema::load(&refs);
    let list: Vec<&str> = order.iter().map(|i| texts[*i].as_str()).collect();
    tr!("  t={}us load order {:?}, expected {}", sh().sim_us, order, match &model { Ok(_) => "to load".to_string(), Err(b) => format!("to fail: {:?}", b) });
    let got = sut("schema-load", || Context::parse(list.iter()))?;
    let dump = || {
        let mut s = String::new();
        for i in order {
            s.push_str(&format!("--- file {}\n{}", i, texts[*i]));
        }
        s
    };
    match (model, got) {
        (Ok(m), Ok(mut ctx)) => {
            P::ParseOk.hit();
            schema::note(&m);
            if let Some(d) = sut("lookup", || schema::disagree(&m, &ctx))? {
                return fail("loaded-differs", format!("loaded in order {:?}: {}\n{}", order, d, dump()));
            }
            packages(&m, &mut ctx)
        }
        (Err(bad), Err(e)) => {
            P::ParseErr.hit();
            match &e {
                ParseError::DuplicateType { .. } => P::Duplicate.hit(),
                ParseError::TypeNotFound { .. } => P::TypeNotFound.hit(),
                ParseError::InvalidTypeKind { .. } => P::InvalidKind.hit(),
                _ => {}
            }
            if !schema::error_fits(&bad, &e) {
                return fail("load-error-differs", format!("loaded in order {:?}: rejected with {:?} though what is wrong is {:?}\n{}", order, e, bad, dump()));
            }
            Ok(())
        }
        (Ok(_), Err(e)) => fail("load-rejected", format!("a valid set in order {:?} is rejected: {}\n{}", order, e, dump())),
        (Err(bad), Ok(_)) => fail(
            match &bad[0] {
                Bad::Dup(_) => "load-accepted-duplicate",
                Bad::Missing { .. } => "load-accepted-missing",
                Bad::Kind { .. } => "load-accepted-kind",
            },
            format!("a set in order {:?} loads though it is wrong: {:?}\n{}", order, bad, dump()),
        ),
    }
}

/// Packages show their names only when one is inserted again.
fn packages(m: &schema::Model, ctx: &mut Context) -> R {
    for (full, i) in &m.msgs {
        if i.parent.is_some() {
            continue;
        }
        let name = &m.pkgs[i.file];
        let parent = ctx.get_message(full).map(|t| t.parent);
        match sut("insert-package", || ctx.insert_package(Package::new(name.clone())))? {
            Err(p) => {
                // Several files may share the package.
                let shared = m.pkgs.iter().filter(|p| *p == name).count() > 1;
                if !shared && parent != Some(TypeParent::Package(p)) {
                    return fail("loaded-differs", format!("the package {:?} of {} is {:?}, but the type's parent is {:?}", name, full, p, parent));
                }
            }
            Ok(_) => return fail("loaded-differs", format!("the context has no package {:?}, though {} belongs to it", name, full)),
        }
    }
    if let Err(p) = sut("insert-package", || ctx.insert_package(Package::new(Some("no.such.package".into()))))? {
        return fail("loaded-differs", format!("the context has a package {:?} nobody declared", p));
    }
    Ok(())
}
