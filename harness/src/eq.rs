//! Field-by-field equality, so that verdicts do not rest on the library's own.

use rspolib::{MOEntry, POEntry};

pub fn po(a: &POEntry, b: &POEntry) -> bool {
    a.linenum == b.linenum && po_noline(a, b)
}

pub fn po_noline(a: &POEntry, b: &POEntry) -> bool {
    a.msgid == b.msgid
        && a.msgstr == b.msgstr
        && a.msgid_plural == b.msgid_plural
        && a.msgstr_plural == b.msgstr_plural
        && a.msgctxt == b.msgctxt
        && a.obsolete == b.obsolete
        && a.comment == b.comment
        && a.tcomment == b.tcomment
        && a.occurrences == b.occurrences
        && a.flags == b.flags
        && a.previous_msgid == b.previous_msgid
        && a.previous_msgid_plural == b.previous_msgid_plural
        && a.previous_msgctxt == b.previous_msgctxt
}

pub fn mo(a: &MOEntry, b: &MOEntry) -> bool {
    a.msgid == b.msgid
        && a.msgstr == b.msgstr
        && a.msgid_plural == b.msgid_plural
        && a.msgstr_plural == b.msgstr_plural
        && a.msgctxt == b.msgctxt
}

pub trait Same {
    fn same(&self, other: &Self) -> bool;
}

impl Same for POEntry {
    fn same(&self, o: &Self) -> bool {
        po(self, o)
    }
}

impl Same for MOEntry {
    fn same(&self, o: &Self) -> bool {
        mo(self, o)
    }
}

impl<T: Same> Same for Vec<T> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b))
    }
}

impl<T: Same> Same for Option<T> {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Some(a), Some(b)) => a.same(b),
            (None, None) => true,
            _ => false,
        }
    }
}

impl<T: Same> Same for &T {
    fn same(&self, o: &Self) -> bool {
        (**self).same(*o)
    }
}

/// Entries whose `==` is the comparison above.
#[derive(Debug)]
pub struct Po(POEntry);

impl PartialEq for Po {
    fn eq(&self, o: &Self) -> bool {
        po(&self.0, &o.0)
    }
}

pub fn pos(v: &[POEntry]) -> Vec<Po> {
    v.iter().cloned().map(Po).collect()
}

#[derive(Debug)]
pub struct Mo(MOEntry);

impl PartialEq for Mo {
    fn eq(&self, o: &Self) -> bool {
        mo(&self.0, &o.0)
    }
}

pub fn mos(v: &[MOEntry]) -> Vec<Mo> {
    v.iter().cloned().map(Mo).collect()
}
