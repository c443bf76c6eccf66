//! Reference rules of the string types (doc/strings.d2 and the type documentation).
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    Bytes,
    NoNul,
    Line,
    Word,
    Arg,
    Key,
    Target,
    Nick,
    User,
    Cmd,
}
use Ty::*;
pub const TYPES: [Ty; 10] = [Bytes, NoNul, Line, Word, Arg, Key, Target, Nick, User, Cmd];

/// Whether byte `c` may never occur in a value of type `t`.
pub fn bad_byte(t: Ty, c: u8) -> bool {
    match t {
        Bytes => false,
        NoNul => c == 0,
        Line => c == 0 || c == b'\r' || c == b'\n',
        Word | Arg => bad_byte(Line, c) || c == b' ',
        Key => bad_byte(Word, c) || c == b'=' || c == b';',
        Target => bad_byte(Word, c) || c == b',',
        Nick => bad_byte(Target, c) || c == b'!' || c == b'@',
        User => bad_byte(Word, c) || c == b'@' || c == b'%',
        Cmd => !(c >= b'A' && c <= b'Z'),
    }
}
pub fn needs_first(t: Ty) -> bool {
    matches!(t, Arg | Key | Target | Nick | User | Cmd)
}
/// The rule for the first byte only.
pub fn first_ok(t: Ty, b: &[u8]) -> bool {
    !needs_first(t) || (!b.is_empty() && b[0] != b':')
}
pub fn valid(t: Ty, b: &[u8]) -> bool {
    first_ok(t, b) && !b.iter().any(|c| bad_byte(t, *c))
}
