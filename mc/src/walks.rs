//! All ways to go through an iterator: sequences of steps, and then each way to use up the rest.

use std::fmt::Debug;

use crate::engine::{Cx, Verdict};

/// How many steps are taken at once at most; a step 0 is `next`, step `k` is `nth(k - 1)`.
const STEPS: usize = 4;

/// Goes through the iterator in all ways of up to `depth` steps before each way to use up the rest, and
/// compares all that is seen with the same on a list.
pub fn walk<T, I>(make: &dyn Fn() -> I, want: &[T], depth: u32, cx: &mut Cx) -> Verdict
where
    T: PartialEq + Debug + Clone,
    I: Iterator<Item = T>,
{
    let mut steps: Vec<usize> = vec![];
    loop {
        one(make, want, &steps, cx)?;
        // The next sequence of steps
        if (steps.len() as u32) < depth {
            steps.push(0);
            continue;
        }
        loop {
            match steps.pop() {
                Some(s) if s + 1 < STEPS => {
                    steps.push(s + 1);
                    break;
                }
                Some(_) => {}
                None => return Ok(()),
            }
        }
    }
}

fn one<T, I>(make: &dyn Fn() -> I, want: &[T], steps: &[usize], cx: &mut Cx) -> Verdict
where
    T: PartialEq + Debug + Clone,
    I: Iterator<Item = T>,
{
    const USES: usize = 12;
    for using in 0..USES {
        let mut it = make();
        let mut at = 0;
        for &s in steps {
            let (got, k) = if s == 0 { (it.next(), 0) } else { (it.nth(s - 1), s - 1) };
            let expected = want.get(at + k);
            at = (at + k + 1).min(want.len());
            cx.op();
            if got.as_ref() != expected {
                return Err(format!("going through {:?} in steps {:?}\nexpected: {:?}\ngot: {:?}", want, steps, expected, got));
            }
        }
        let left = &want[at..];
        let (min, max) = it.size_hint();
        cx.op();
        cx.checked();
        if min > left.len() || max.map_or(false, |m| m < left.len()) {
            return Err(format!("after steps {:?} of {:?} there are {} left\ngot: {:?}", steps, want, left.len(), (min, max)));
        }
        let list = |v: Vec<T>| format!("{:?}", v);
        let (what, got, expected) = match using {
            0 => ("collect", list(it.collect()), list(left.to_vec())),
            1 => ("count", it.count().to_string(), left.len().to_string()),
            2 => ("last", format!("{:?}", it.last()), format!("{:?}", left.last())),
            3 => {
                let v = it.fold(vec![], |mut v, x| {
                    v.push(x);
                    v
                });
                ("fold", list(v), list(left.to_vec()))
            }
            4 => {
                let mut v = vec![];
                it.for_each(|x| v.push(x));
                ("for_each", list(v), list(left.to_vec()))
            }
            5 => ("skip", list(it.skip(1).collect()), list(left.iter().skip(1).cloned().collect())),
            6 => ("step_by", list(it.step_by(2).collect()), list(left.iter().step_by(2).cloned().collect())),
            7 => {
                // Up to the first like the last, and on
                let last = left.last().cloned();
                let pos = it.position(|x| Some(&x) == last.as_ref());
                let wanted = left.iter().position(|x| Some(x) == last.as_ref());
                let rest = wanted.map_or(vec![], |p| left[p + 1..].to_vec());
                ("position", format!("{:?} {:?}", pos, it.collect::<Vec<T>>()), format!("{:?} {:?}", wanted, rest))
            }
            8 => {
                let middle = left.get(left.len() / 2).cloned();
                let found = it.find(|x| Some(x) == middle.as_ref());
                let wanted = left.iter().position(|x| Some(x) == middle.as_ref());
                let rest = wanted.map_or(vec![], |p| left[p + 1..].to_vec());
                ("find", format!("{:?} {:?}", found, it.collect::<Vec<T>>()), format!("{:?} {:?}", middle, rest))
            }
            9 => {
                let first: Vec<T> = it.by_ref().take(2).collect();
                ("take", format!("{:?} {:?}", first, it.collect::<Vec<T>>()), format!("{:?} {:?}", &left[..left.len().min(2)], &left[left.len().min(2)..]))
            }
            10 => {
                let none = it.nth(left.len());
                ("nth beyond the end", format!("{:?} {:?} {:?}", none, it.next(), it.size_hint().0), "None None 0".to_owned())
            }
            _ => {
                let all = it.all(|_| true);
                ("all", format!("{:?} {:?} {:?}", all, it.next(), it.next()), "true None None".to_owned())
            }
        };
        cx.op();
        cx.checked();
        cx.outcome(&(what, at, left.len()));
        if got != expected {
            return Err(format!("`{}` after steps {:?} of {:?}\nexpected: {}\ngot: {}", what, steps, want, expected, got));
        }
    }
    Ok(())
}
