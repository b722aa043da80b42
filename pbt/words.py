"""Shell words with random quoting, and what they mean."""
from __future__ import annotations

import re

SAFE = re.compile(r"[A-Za-z0-9._/:,+@%^-]+\Z")
CHUNKS = ["a", "x1", "b.c", "|", ">", ">>", "<", "||", " ", "  ", "two words", "'", '"', "\\", "\\\\",
          "#", "#c", ";", "&", "&&", "(", ")", "~", "!", "`", "=", "A=b", "{x}", "%s", "-n", "--", "\t",
          "\u00fc", "\u65e5\u672c", "\U0001f600", "\\n", "a|b", "a > b", "<<", "|&", "e\u0301", "it's",
          'say "hi"', "\\'", "'|'", '">"', "/", "..", "-", "0", "\u00a0", "*", "?", "[a-z]*", "*.txt", "f*", "/d/*", "$", "$A", "${A}", "$UNSET x",
          "$$", "a\nb", "\n", "x\r\ny", "\u2028", "\x0c", "\x85", "\x1e", "\ufdd0", "]", "\\*", "'*'"]


def piece(b, variables):
    """[kind, text, style]; variables: name -> value (or None for an unset one)."""
    if variables and b.chance(18):
        name = b.pick(sorted(variables))
        value = variables[name] or ""
        bare_ok = value != "" and SAFE.match(value)
        return ["var", name, b.pick(["bare", "brace", "dq", "dqbrace"]) if bare_ok
                else b.pick(["dq", "dqbrace"])]
    text = b.pick(CHUNKS)
    style = b.pick(["bare", "single", "double", "slash"])
    if style == "bare" and not SAFE.match(text):
        style = "single"
    if style == "single" and "'" in text:
        style = "double"
    if style == "slash" and any(c in text for c in "\n\r"):
        style = "double"
    return ["lit", text, style]


def word(b, variables=None, most=3):
    if b.chance(4):
        return [["lit", "", b.pick(["single", "double"])]]
    return [piece(b, variables) for _ in range(1 + b.below(most))]


def render(w):
    out = ""
    for i, (kind, text, style) in enumerate(w):
        if kind == "var":
            bare = i + 1 < len(w) and (w[i + 1][0] == "lit" and w[i + 1][2] == "bare") and style == "bare"
            ref = "$" + text if not bare and style in ("bare", "dq") else "${" + text + "}"
            out += f'"{ref}"' if style.startswith("dq") else ref
        elif style == "bare":
            out += text
        elif style == "single":
            out += f"'{text}'"
        elif style == "double":
            out += '"' + text.replace("\\", "\\\\").replace('"', '\\"').replace("$", "\\$") + '"'
        else:
            out += "".join("\\" + c for c in text)
    return out


def meaning(w, env):
    return "".join(text if kind == "lit" else env.get(text, "") for kind, text, _ in w)
