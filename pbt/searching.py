"""An independent line matcher over a captured tree."""
from __future__ import annotations

import re

from pbt.views import within


def matches(line, query, regex, ignore):
    if regex:
        return re.search(query, line, re.IGNORECASE if ignore else 0) is not None
    if ignore == "fold":
        return query.casefold() in line.casefold()
    if ignore:
        return query.lower() in line.lower()
    return query in line


def expect(state, query, regex=False, ignore=False, prefix="/", allows=None, skip=None):
    """All (path, line number, line) of readable files below prefix; state: captured tree."""
    top = state.get(prefix)
    if top is None or not top["policy"]["r"] or (skip and within(prefix, skip)):
        return []
    out = []
    for path, rec in state.items():
        if rec["dir"] or not rec["policy"]["r"] or not within(path, prefix):
            continue
        if skip and within(path, skip):
            continue
        if allows is not None and not allows(path, rec):
            continue
        if not isinstance(rec["content"], str):
            continue
        for no, line in enumerate(rec["content"].splitlines(), 1):
            if matches(line, query, regex, ignore):
                out.append((path, no, line))
    return sorted(out)


def found(results):
    return sorted((str(r.path), r.line_no, r.line_text) for r in results)
