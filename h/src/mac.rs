/// Abandon the case (natively) or constrain the path (Kani) unless `c` holds.
#[macro_export]
macro_rules! pre {
    ($s:ident, $c:expr) => {
        if !$s.assume($c) {
            return;
        }
    };
}

/// Reachability obligation: must be satisfiable, else the check is vacuous.
#[macro_export]
macro_rules! cov {
    ($s:ident, $c:expr, $m:expr) => {{
        #[cfg(kani)]
        kani::cover!($c, $m);
        $s.cover($c, $m);
    }};
}

/// Postcondition.
#[macro_export]
macro_rules! post {
    ($c:expr, $m:expr) => {
        if !($c) {
            panic!(concat!("postcondition failed: ", $m));
        }
    };
}

/// The contract of `<[T]>::copy_from_slice`, stated as a loop. The verifier uses it in place
/// of the function: its model of a memcpy that fills a whole array loses the contents when the
/// array is then moved into a `Result` (see DESIGN.md).
#[cfg(kani)]
pub fn copied<T: Copy>(d: &mut [T], s: &[T]) {
    assert!(d.len() == s.len(), "copy_from_slice: lengths differ");
    let mut i = 0;
    while i < d.len() {
        d[i] = s[i];
        i += 1;
    }
}

/// Harnesses, written inside `pub mod $m { .. }`-less blocks:
/// `harnesses! { name (unwind) = |s| { body } ... }`
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$a:meta])* $name:ident ($u:expr) = |$s:ident| $body:block )*) => {
        $( $(#[$a])* pub fn $name<S: $crate::src::Src>($s: &mut S) $body )*
        #[cfg(kani)]
        mod k {
            $( $(#[$a])* #[kani::proof] #[kani::unwind($u)]
               #[kani::stub(<[u32]>::copy_from_slice, $crate::mac::copied)]
               fn $name() { super::$name(&mut $crate::src::K) } )*
        }
        #[cfg(not(kani))]
        pub const LIST: &[(&str, $crate::Harness)] = &[
            $( $(#[$a])* (concat!(module_path!(), "::", stringify!($name)), $name::<$crate::src::Native>), )*
        ];
    };
}

/// Harnesses that only run natively (bounded stand-ins; too large for the verifier).
#[macro_export]
macro_rules! natives {
    ($( $name:ident = |$s:ident| $body:block )*) => {
        #[cfg(not(kani))]
        mod nat {
            use super::*;
            $( pub fn $name<S: $crate::src::Src>($s: &mut S) $body )*
        }
        #[cfg(not(kani))]
        pub const NLIST: &[(&str, $crate::Harness)] = &[
            $( (concat!(module_path!(), "::nat::", stringify!($name)), nat::$name::<$crate::src::Native>), )*
        ];
    };
}

/// Runs the body for one of several lengths, chosen arbitrarily; each length is a constant
/// in its copy of the body, so that the verifier resolves the loops over it.
#[macro_export]
macro_rules! lens {
    ($s:ident, $n:ident in [$($v:expr),*] $body:block) => {{
        let pick = $s.upto([$($v),*].len() - 1);
        let mut at = 0usize;
        $( if pick == at { let $n: usize = $v; $body } at += 1; )*
        let _ = at;
    }};
}
