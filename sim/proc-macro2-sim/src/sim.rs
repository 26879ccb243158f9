//! The seam of the simulator: every operation that is a request to the
//! compiler when a macro runs inside one goes through `op`, where the
//! simulator may count it, switch to another thread or make it fail.

use core::cell::Cell;

/// The kinds of token-server operations.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Op {
    /// A token was requested from a stream.
    Next,
    /// A stream position was saved.
    Fork,
    /// A stream was opened for reading.
    Open,
    /// The content of a group was requested.
    Enter,
    /// Tokens were appended to a stream, or a stream was built.
    Append,
    /// A group was created.
    Wrap,
    /// An identifier was created.
    Intern,
    /// Two spans were joined.
    Join,
    /// A token was turned into text.
    Print,
    /// The session's call site was asked for.
    Place,
}

/// What `Span::join` answers.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Join {
    /// Every two spans join.
    Always,
    /// No two spans join (stable compilers).
    Never,
    /// Only spans of one source file join.
    SameFile,
}

/// Number of source positions that belong to one simulated source file.
pub const FILE_SIZE: u32 = 1 << 20;

std::thread_local! {
    static HOOK: Cell<Option<fn(Op)>> = const { Cell::new(None) };
    static JOIN: Cell<Join> = const { Cell::new(Join::SameFile) };
    static CALL: Cell<u32> = const { Cell::new(CALL_SITES) };
}

/// Sets the function called on every operation of this thread.
pub fn set_hook(hook: Option<fn(Op)>) {
    HOOK.with(|h| h.set(hook));
}

/// Sets what `Span::join` answers on this thread.
pub fn set_join(join: Join) {
    JOIN.with(|j| j.set(join));
}

/// Where the call sites of the sessions are.
const CALL_SITES: u32 = 0xFFFF_0000;

/// Sets which session runs on this thread: each has its own call site.
pub fn set_session(n: u32) {
    CALL.with(|c| c.set(CALL_SITES + n % 0xFFF0));
}

pub(crate) fn call_site() -> u32 {
    CALL.with(|c| c.get())
}

/// The current session's call site is at (0, 0) to those who look; that of
/// any other session is not.
#[inline]
pub(crate) fn from_raw(at: (u32, u32)) -> (u32, u32) {
    if at.0 >= CALL_SITES && at.0 == at.1 && at.0 == call_site() {
        (0, 0)
    } else {
        at
    }
}

#[inline]
pub(crate) fn op(op: Op) {
    if let Some(hook) = HOOK.with(|h| h.get()) {
        hook(op);
    }
}

/// The join rule, for use by the simulator's own oracle as well.
pub fn join_rule(mode: Join, a: (u32, u32), b: (u32, u32)) -> Option<(u32, u32)> {
    let joined = Some((core::cmp::min(a.0, b.0), core::cmp::max(a.1, b.1)));
    match mode {
        Join::Always => joined,
        Join::Never => None,
        Join::SameFile if a.0 / FILE_SIZE == b.0 / FILE_SIZE => joined,
        Join::SameFile => None,
    }
}

pub(crate) fn join(a: (u32, u32), b: (u32, u32)) -> Option<(u32, u32)> {
    op(Op::Join);
    let joined = join_rule(JOIN.with(|j| j.get()), from_raw(a), from_raw(b));
    if joined == Some((0, 0)) {
        Some((call_site(), call_site()))
    } else {
        joined
    }
}

/// Makes a span at the given position.
pub fn span(lo: u32, hi: u32) -> crate::Span {
    if (lo, hi) == (0, 0) {
        return crate::Span::call_site();
    }
    crate::Span::_new(crate::fallback::Span { lo, hi })
}

/// The position of a span.
pub fn raw(span: crate::Span) -> (u32, u32) {
    from_raw((span.inner.lo, span.inner.hi))
}

/// Makes a literal token with this spelling.
pub fn literal(repr: &str) -> crate::Literal {
    unsafe { crate::Literal::from_str_unchecked(repr) }
}

/// Forgets the text of all streams that were parsed from strings.
pub fn forget_sources() {
    crate::fallback::invalidate_current_thread_spans();
}
