"""C18: output never exceeds the configured byte limit."""
from pbt import sut
from pbt.core import Check, require
from pbt.sut import q
from sandfs.shell import CommandResult

FILL = ["x", "\u00fc", "\u65e5", "\U0001f600", "ab ", "e\u0301", "\n", "line\n", "\t", "\r\n"]


def filler(b):
    """Marked text of any length; no character may survive in a notice."""
    unit = b.pick(FILL)
    n = b.weighted([(3, 0), (3, 1), (4, 5), (3, 40), (1, 400), (1, 3000)])
    return "TOK" + unit * (n + b.below(4) if n else 0)


class C18(Check):
    id = "C18"
    rule = """command lines and scripts (reading commands, custom commands writing output and
    error text with any exit code, pipelines, redirections, host and python commands, failing
    commands with long messages) over files of marked single- and multi-byte text, run in
    a shell whose limit lies just below, at, just above or far from the byte or character
    count of what an unlimited twin prints; non-trivial: a limit between 1 and 2 bytes away
    from the count, or multi-byte text whose character count is within the limit and whose
    byte count is not"""
    quick, thorough = 28000, 400000
    max_ops, op_bytes, cfg_bytes, min_ops = 4, 40, 60, 1
    assumptions = ["a pipeline with an intermediate output above the limit may be refused or run"]

    def decode(self, cfg, raw):
        files = [filler(cfg) for _ in range(4)]
        hosty = cfg.chance(5)
        lines = []
        for b in raw:
            stages = []
            for _ in range(b.weighted([(6, 1), (3, 2), (1, 3)])):
                f = f"/d/TOK{b.below(4)}"
                kind = b.weighted([(5, "cat"), (3, "both"), (2, "echo"), (2, "ls"), (2, "err"), (1, "find"),
                                   (1, "grep"), (1, "head"), (2, "missing"), (1, "tree"), (1, "stdin"),
                                   (1, "wc"), (1, "unknown")] + ([(6, "host"), (6, "python")] if hosty else []))
                stages.append({
                    "cat": f"cat {f}", "echo": "echo " + q(filler(b).replace("\n", "n").replace("\r", "r")),
                    "ls": b.pick(["ls /d", "ls -l /d"]), "find": "find /d", "tree": "tree /d",
                    "grep": f"grep TOK {f}", "head": f"head -n {b.below(5)} {f}",
                    "missing": b.pick(["cat", "ls", "stat", "cd"]) + " /TOK" + "\u00e9" * b.below(120),
                    "both": f"both {b.below(4)} {b.below(4)} {b.pick([0, 0, 0, 3])}",
                    "err": f"both - {b.below(4)} {b.pick([0, 0, 5])}", "stdin": "cat", "wc": "wc -c " + f,
                    "unknown": "TOK" + b.pick("n\u00e9") * b.below(90),
                    "host": f"host cat {f}", "python": "python " + q(f"print(vfs.read_file('{f}'))"),
                }[kind])
            if b.chance(10):
                stages[-1] += " > /out"
            lines.append(stages)
        return {"files": files, "lines": lines,
                "how": cfg.weighted([(6, "bytes"), (2, "chars"), (1, "abs"), (1, "stage")]),
                "delta": cfg.weighted([(4, 0), (4, -1), (3, 1), (2, -2), (1, 7), (1, -40), (1, 10**6)]),
                "abs": cfg.pick([0, 1, 5, 30, 200]), "at": cfg.below(4)}

    def make(self, case, limit):
        vfs = sut.VirtualFileSystem()
        for i, text in enumerate(case["files"]):
            vfs.write_file(f"/d/TOK{i}", text)
        sh = sut.SandboxShell(vfs, max_output_bytes=limit)

        def both(args, ctx):
            out = "" if args[0] == "-" else case["files"][int(args[0])]
            return CommandResult(stdout=out, stderr=case["files"][int(args[1])],
                                 exit_code=int(args[2]))
        sh.register_command("both", both)
        return vfs, sh

    def run(self, case, env):
        # What the lines print without a limit, and how much every stage prints on the way.
        expected = []
        vfs, twin = self.make(case, None)
        for stages in case["lines"]:
            clean = [s.replace(" > /out", "") for s in stages]
            sizes, errs = [], [""]
            for i in range(1, len(stages) + 1):
                r = sut.sh(twin, " | ".join(clean[:i]))
                sizes.append(self.size(r))
                errs.append(r.stderr)
            res = sut.sh(twin, " | ".join(stages))
            expected.append((res, max(sizes), errs[:-1]))
            if res.exit_code:
                break
        ref, biggest, _ = expected[case["at"] % len(expected)]
        base = {"bytes": self.size(ref), "chars": len(ref.stdout + ref.stderr), "abs": case["abs"],
                "stage": biggest}[case["how"]]
        limit = max(0, base + case["delta"])
        vfs, sh = self.make(case, limit)
        line = "\n".join(" | ".join(s) for s in case["lines"])
        got = sut.sh(sh, line)
        what = f"limit {limit}, {line!r}"
        interesting = False
        for i, (res, biggest, errs) in enumerate(expected):
            total = self.size(res)
            interesting |= 0 <= abs(total - limit) <= 2 or len(res.stdout + res.stderr) <= limit < total
            if total > limit:
                self.withheld(got, what, errs, limit)
                env.label("withheld")
                return interesting
            last = i == len(expected) - 1
            if biggest > limit:
                env.label("stage above")
                # either refused here or run as usual
                if self.is_notice(got, errs, limit):
                    return interesting
                continue
            if last or res.exit_code:
                require(got == res, f"{what}: within the limit ({total} bytes) but delivered as",
                        sut.short(got), sut.short(res))
                env.label("delivered")
        return interesting

    def size(self, res):
        return len((res.stdout + res.stderr).encode("utf-8"))

    def is_notice(self, res, errs, limit):
        """A short notice, possibly after what earlier commands of the pipeline had reported
        if that still fits the limit."""
        if res.exit_code == 0 or res.stdout or not res.stderr.strip():
            return False
        for err in errs:
            rest = res.stderr[len(err):]
            if res.stderr.startswith(err) and (not err or self.size(res) <= limit) and rest.strip() \
                    and "TOK" not in rest and len(rest) <= 200 and rest.isascii():
                return True
        return False

    def withheld(self, res, what, errs, limit):
        require(res.exit_code != 0, f"{what}: above the limit but succeeded", sut.short(res))
        require(self.is_notice(res, errs, limit), f"{what}: above the limit, no short notice",
                sut.short(res))



CHECK = C18()
