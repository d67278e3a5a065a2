//! C21: navigating the skeleton.
use super::save;
use crate::ctx::{show, viol, Ctx, Res};
use crate::model::{self, Cfg};
use crate::rng::hash_bytes;
use crate::{setup, view};
use bvh_anim::Bvh;

pub fn navigation(cx: &mut Ctx) -> Res {
    let b: Bvh = match cx.case % 6 {
        0 => Bvh::new(),
        1 => match save::any_animation(cx, true) {
            Some(b) => b,
            None => return Ok(()),
        },
        _ => {
            let mut cfg = if cx.case % 4 == 0 && !cx.tiny { Cfg::medium() } else { Cfg::small() };
            cfg.max_frames = 1;
            cfg = cfg.scaled(cx.case);
            if cx.case % 80_021 == 77 {
                cfg.scale = 3;
            }
            match setup::animation(cx, &cfg) {
                Some((d, b)) => {
                    // The tree of the file, independently of what the library says.
                    let want = d.view();
                    if view::diff_joints(&want.joints, &view::joints(&b)).is_none() {
                        cx.see("trees known from the file");
                    }
                    b
                }
                None => return Ok(()),
            }
        }
    };
    check(cx, b)
}

/// What is left lies within what is announced.
fn announced<I: Iterator>(it: &I, left: usize, what: &str) -> Res {
    let (lo, hi) = it.size_hint();
    ensure!(lo <= left && hi.map_or(true, |h| h >= left), "size-hint", "{} announces {} to {:?}, {} are left", what, lo, hi, left);
    Ok(())
}

fn check(cx: &mut Ctx, mut b: Bvh) -> Res {
    let js = view::joints(&b);
    let n = js.len();
    ensure!(b.joints().count() == n, "listing-unstable", "joints() lists {} joints, then {}", n, b.joints().count());
    match (b.root_joint(), js.first()) {
        (None, None) => cx.see("animations without joints"),
        (Some(r), Some(f)) => {
            ensure!(r.is_root() && r.index() == 0 && r.name() == &f.name[..], "root", "root_joint() is not the first joint");
        }
        (r, _) => return viol("root", format!("root_joint() is {} with {} joints", if r.is_some() { "some" } else { "none" }, n)),
    }
    let mut kids: Vec<Vec<usize>> = vec![vec![]; n];
    for j in &js {
        if let Some(p) = j.parent {
            ensure!(p < n, "parent-outside", "joint {} has parent {} of {}", j.index, p, n);
            kids[p].push(j.index);
        }
    }
    // Some joints of a huge tree, among them the first and the last; all of any other.
    let step = if n > 900 { n / 40 } else { 1 };
    let many = kids.iter().map(|k| k.len()).max().unwrap_or(0);
    for (i, j) in b.joints().enumerate() {
        if i % step != 0 && i + 2 < n && (kids[i].len() < many || i > 50) {
            continue;
        }
        cx.evaluations += 1;
        ensure!(j.index() == i, "index", "the joint listed at {} says its index is {}", i, j.index());
        ensure!(j.is_root() == (i == 0) && j.is_child() == (i != 0), "root", "joint {}: is_root {} is_child {}", i, j.is_root(), j.is_child());
        let _ = (j.name(), j.channels(), j.offset(), j.end_site(), j.has_end_site(), format!("{:?}", j));
        match (j.parent(), j.parent_index()) {
            (None, None) => ensure!(i == 0, "orphan", "joint {} has no parent", i),
            (Some(p), Some(k)) => {
                ensure!(p.index() == k && p.name() == &js[k].name[..], "parent", "joint {}: parent() is {}, parent_index() {}", i, p.index(), k);
                ensure!(k < i, "parent-order", "joint {} has parent {}", i, k);
            }
            _ => return viol("parent", format!("joint {}: parent() and parent_index() disagree", i)),
        }
        let got: Vec<usize> = j.children().take(n + 2).map(|c| c.index()).collect();
        ensure!(got == kids[i], "children", "joint {} of {}: children() gives {:?}, the joints with that parent are {:?}", i, n, got, kids[i]);
        let skip = if kids[i].len() > 900 { kids[i].len() / 20 } else { 1 };
        for (nth, c) in j.children().enumerate() {
            if nth % skip != 0 && nth + 2 < kids[i].len() {
                continue;
            }
            ensure!(c.parent_index() == Some(i), "children", "a child of {} has parent {:?}", i, c.parent_index());
            // Joints reached through navigation are as good as listed ones.
            ensure!(c.name() == &js[c.index()].name[..], "children", "child {} of {} has another name", c.index(), i);
            let g: Vec<usize> = c.children().take(n + 2).map(|g| g.index()).collect();
            ensure!(g == kids[c.index()], "children", "grandchildren through {}: {:?} instead of {:?}", c.index(), g, kids[c.index()]);
            let up = c.parent().map(|p| p.index());
            ensure!(up == Some(i), "parent", "the parent of a child of {} is {:?}", i, up);
        }
        cx.see(if kids[i].is_empty() { "leaves" } else if kids[i].len() > 1 { "joints with several children" } else { "joints with one child" });
        // Up to the root.
        let (mut k, mut steps) = (i, 0);
        while let Some(p) = js[k].parent {
            k = p;
            steps += 1;
            ensure!(steps <= n, "no-root", "following parents from {} never ends", i);
        }
        ensure!(k == 0, "no-root", "following parents from {} ends at {}", i, k);
        cx.max("deepest joint", steps as u64);
    }
    cx.max("most joints", n as u64);
    // Names: each one there is, and some there are not.
    let mut names: Vec<Vec<u8>> = js.iter().rev().step_by(step).map(|j| j.name.clone()).collect();
    for j in js.iter().take(4) {
        let mut x = j.name.clone();
        x.pop();
        names.push(x.clone());
        x = j.name.clone();
        x.push(b'x');
        names.push(x);
        names.push(j.name.to_ascii_uppercase());
        names.push(j.name.to_ascii_lowercase());
    }
    names.push(vec![]);
    names.push(b"no such joint".to_vec());
    for name in &names {
        cx.evaluations += 1;
        let want = js.iter().position(|j| &j.name == name);
        let got = b.joints().find_by_name(name).map(|j| j.index());
        ensure!(got == want, "find", "searching {:?} gives {:?}, the first such joint is {:?}", show(name), got, want);
        let s = b.joints().find_by_name(&name[..]).map(|j| j.index());
        ensure!(s == want, "find", "searching the slice {:?} gives {:?}, the first such joint is {:?}", show(name), s, want);
        if let Ok(s) = std::str::from_utf8(name) {
            let got = b.joints().find_by_name(s).map(|j| j.index());
            ensure!(got == want, "find", "searching the string {:?} gives {:?}, the first such joint is {:?}", s, got, want);
        }
        cx.see(if want.is_some() { "names found" } else { "names not found" });
    }
    // A search goes on from where the listing is, and the listing from where the search ended.
    for _ in 0..if cx.tiny { 1 } else { 6 } {
        cx.evaluations += 1;
        let start = cx.rng.below(n + 1);
        let name = cx.rng.pick(&names).clone();
        let mut it = b.joints();
        let skipped = it.by_ref().take(start).count();
        announced(&it, n - start, "joints()")?;
        ensure!(skipped == start, "listing-unstable", "joints() ends after {} of {} joints", skipped, n);
        let want = js.iter().skip(start).position(|j| j.name == name).map(|k| k + start);
        let got = it.find_by_name(&name).map(|j| j.index());
        ensure!(got == want, "find", "searching {:?} from joint {} of {} on gives {:?}, the first such joint from there is {:?}", show(&name), start, n, got, want);
        let left = it.by_ref().take(n + 2).count();
        let expected = want.map_or(0, |w| n - w - 1);
        ensure!(left == expected, "find", "after searching {:?} from joint {} of {} (found {:?}), {} joints are left, expected {}", show(&name), start, n, want, left, expected);
        ensure!(it.next().is_none() && it.next().is_none(), "listing-unstable", "joints() goes on after its end");
        // Among children only children are found.
        if n == 0 {
            continue;
        }
        let i = cx.rng.below(n);
        let mut with: Vec<usize> = (0..n.min(400)).filter(|&k| !kids[k].is_empty()).collect();
        with.push(i);
        let i = *cx.rng.pick(&with);
        let j = b.joints().nth(i);
        let j = match j {
            Some(j) => j,
            None => return viol("listing-unstable", format!("joints() has no joint {} of {}", i, n)),
        };
        let mut wanted: Vec<Vec<u8>> = vec![name.clone(), js[i].name.clone(), js[0].name.clone(), js[n - 1].name.clone()];
        wanted.extend(kids[i].last().map(|&k| js[k].name.clone()));
        for name in &wanted {
            let mut it = j.children();
            let start = if kids[i].is_empty() { 0 } else { cx.rng.below(kids[i].len().min(5)) };
            let _ = it.by_ref().take(start).count();
            announced(&it, kids[i].len() - start, "children()")?;
            let want = kids[i].iter().skip(start).position(|&k| &js[k].name == name).map(|p| p + start);
            let got = it.find_by_name(name).map(|c| c.index());
            ensure!(
                got == want.map(|p| kids[i][p]),
                "find-child",
                "searching {:?} among the children of joint {} from the {}th on gives {:?}, not {:?}",
                show(name),
                i,
                start,
                got,
                want.map(|p| kids[i][p])
            );
            let left: Vec<usize> = it.by_ref().take(n + 2).map(|c| c.index()).collect();
            let expected: Vec<usize> = want.map_or(vec![], |p| kids[i][p + 1..].to_vec());
            ensure!(left == expected, "find-child", "after searching {:?} among the children of joint {}, {:?} are left, expected {:?}", show(name), i, left, expected);
            ensure!(it.next().is_none() && it.next().is_none(), "children", "children() of joint {} goes on after its end", i);
            cx.see(if want.is_some() { "children found by name" } else { "children not found by name" });
        }
        ensure!(j.children().last().map(|c| c.index()) == kids[i].last().copied() && j.children().count() == kids[i].len(), "children", "last() or count() of the children of joint {} is wrong", i);
        if !kids[i].is_empty() {
            let k = cx.rng.below(kids[i].len() + 1);
            ensure!(j.children().nth(k).map(|c| c.index()) == kids[i].get(k).copied(), "children", "child {} of joint {} is wrong", k, i);
        }
    }
    ensure!(b.joints().last().map(|j| j.index()) == n.checked_sub(1), "listing-unstable", "the last of {} joints is {:?}", n, b.joints().last().map(|j| j.index()));
    let dup = js.iter().enumerate().any(|(i, j)| js[..i].iter().any(|k| k.name == j.name));
    if dup {
        cx.see("trees with a repeated name");
    }
    let all: Vec<usize> = b.joints().map(|j| j.index()).collect();
    ensure!(all.len() == n && all.iter().enumerate().all(|(i, &k)| i == k), "listing-unstable", "collecting joints() gives other joints than a loop");
    let k = cx.rng.below(n + 3);
    ensure!(b.joints().nth(k).map(|j| j.index()) == all.get(k).copied(), "listing-unstable", "nth({}) of {} joints is {:?}", k, n, b.joints().nth(k).map(|j| j.index()));
    let k = cx.rng.below(4);
    let mut it = b.joints();
    let folded: usize = it.by_ref().skip(k).map(|j| j.index()).fold(0, |a, i| a.wrapping_mul(31).wrapping_add(i));
    ensure!(folded == (k..n).fold(0usize, |a, i| a.wrapping_mul(31).wrapping_add(i)), "listing-unstable", "skipping {} of {} joints and folding gives others", k, n);
    {
        let mut it = b.joints_mut();
        let k = cx.rng.below(n + 1);
        let _ = it.by_ref().take(k).count();
        announced(&it, n - k, "joints_mut()")?;
    }
    let m = b.joints_mut().take(n + 2).count();
    ensure!(m == n, "joints-mut", "joints() lists {} joints, joints_mut() {}", n, m);
    ensure!(view::joints(&b) == js, "joints-mut", "listing the joints mutably changed them");
    if n > 1 {
        let key: Vec<u8> = js.iter().flat_map(|j| [j.parent.unwrap_or(255) as u8, j.channels.len() as u8, j.name.len() as u8]).collect();
        if cx.distinct(hash_bytes(&key)) {
            cx.sample(|| format!("parents of {} joints: {:?}", n, js.iter().map(|j| j.parent).collect::<Vec<_>>()));
        }
    }
    let _ = model::CHANNELS;
    Ok(())
}
