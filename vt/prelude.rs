//! Contracts of std iterator methods that run a closure with state, as the code they are documented to be equivalent to.
//! prelude.mir is the MIR of this file (rustc --emit=mir), parsed together with the crate's.
pub fn vt_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn vt_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn vt_try_for_each_result<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(mut it: I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() {
        match f(x) {
            Ok(()) => {}
            Err(e) => return Err(e),
        }
    }
    Ok(())
}
pub fn vt_try_for_each_option<I: Iterator, F: FnMut(I::Item) -> Option<()>>(mut it: I, mut f: F) -> Option<()> {
    while let Some(x) = it.next() {
        match f(x) {
            Some(()) => {}
            None => return None,
        }
    }
    Some(())
}
pub fn vt_scan<I: Iterator, S, B, F: FnMut(&mut S, I::Item) -> Option<B>>(mut it: I, init: S, mut f: F) -> Vec<B> {
    let mut state = init;
    let mut out = Vec::new();
    while let Some(x) = it.next() {
        match f(&mut state, x) {
            Some(y) => out.push(y),
            None => break,
        }
    }
    out
}
pub fn vt_map<I: Iterator, B, F: FnMut(I::Item) -> B>(mut it: I, mut f: F) -> Vec<B> {
    let mut out = Vec::new();
    while let Some(x) = it.next() {
        out.push(f(x));
    }
    out
}
pub fn vt_filter_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(mut it: I, mut f: F) -> Vec<B> {
    let mut out = Vec::new();
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            out.push(y);
        }
    }
    out
}
pub fn vt_all<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut out = Vec::new();
    while let Some(x) = it.next() {
        out.push(x);
    }
    out
}
pub fn vt_map_while<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(mut it: I, mut f: F) -> Vec<B> {
    let mut out = Vec::new();
    while let Some(x) = it.next() {
        match f(x) {
            Some(y) => out.push(y),
            None => break,
        }
    }
    out
}
pub fn vt_try_fold_result<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(mut it: I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x) {
            Ok(y) => acc = y,
            Err(e) => return Err(e),
        }
    }
    Ok(acc)
}
pub fn vt_try_fold_option<I: Iterator, B, F: FnMut(B, I::Item) -> Option<B>>(mut it: I, init: B, mut f: F) -> Option<B> {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x) {
            Some(y) => acc = y,
            None => return None,
        }
    }
    Some(acc)
}
