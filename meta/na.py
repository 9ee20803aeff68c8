NA = {
"N01": "Equality of a whole document after a round trip quantifies over unbounded trees of run-time text through a writer and a parser; no static argument in reach bounds it. Its structural parts are claimed separately (S01 quoting tables, S02 escapes, S03 field tables).",
"N04": "Depends on a run-time clock and on histories of timer operations.",
"N05": "Depends on the numeric conversion routines of the C++ library over all floating-point values; a run-time value property.",
"N06": "Index arithmetic modulo a run-time capacity over operation histories: needs model checking or symbolic execution, which is another technique family.",
"N07": "Semantics of a backtracking matcher over all strings: a run-time value property.",
"N08": "Termination and complexity over all documents; no sound static bound in reach for the recursive reader.",
}
