"""Open the visibility of rustfmt-formatted Rust source, line by line.

Only used on the generated copy of the tree (never on /repo): private free functions, inherent methods,
types, constants, struct fields and `mod x;` lines become `pub`, so that the generated-input checks can
call helpers directly. Nothing else about the code changes.
"""
import re

ITEM = re.compile(r'^(async fn|const fn|unsafe fn|fn|struct|enum|const [A-Z_a-z]|static [A-Z_a-z]|type [A-Z]|trait )')
MODDECL = re.compile(r'^mod (\w+);')
METHOD = re.compile(r'^    (async fn|const fn|unsafe fn|fn|const [A-Z_]+:)')
FIELD = re.compile(r'^    ([a-z_][a-z0-9_]*|r#[a-z]+):')
RESTRICTED = re.compile(r'\bpub\((?:crate|super|in [^)]*)\) ')

def openvis(text):
    out, ctx, raw = [], None, None
    lines = text.split("\n")
    i, n = 0, len(lines)
    header = None            # accumulating an `impl ... {` header
    for line in lines:
        # raw string literals spanning lines are left alone
        if raw is not None:
            if raw in line:
                raw = None
            out.append(line)
            continue
        m = re.search(r'(?<![A-Za-z0-9_"])r(#*)"', line)
        if m and not line.lstrip().startswith("//"):
            term = '"' + m.group(1)
            if term not in line[m.end():]:
                raw = term
                out.append(line)
                continue
        if ctx is None:
            line = RESTRICTED.sub("pub ", line)
            if header is not None:
                header += " " + line.strip()
                if line.rstrip().endswith("{"):
                    ctx = "trait" if re.search(r'\bfor\b(?!<)', header) else "impl"
                    header = None
                out.append(line)
                continue
            if re.match(r'^(unsafe )?impl\b', line):
                if line.rstrip().endswith("{"):
                    ctx = "trait" if re.search(r'\bfor\b(?!<)', line) else "impl"
                elif line.rstrip().endswith("}") or line.rstrip().endswith(";"):
                    pass
                else:
                    header = line
                out.append(line)
                continue
            if MODDECL.match(line) or ITEM.match(line):
                line = "pub " + line
            if re.match(r'^pub struct\b', line):
                if line.rstrip().endswith("{"):
                    ctx = "struct"
                elif not line.rstrip().endswith((";", "}")):
                    ctx = "struct"
                elif "(" in line and line.rstrip().endswith(");"):
                    line = open_tuple(line)
            elif re.match(r'^(pub )?(trait|enum|mod|macro_rules!|sol!|extern)\b.*\{$', line) or \
                    re.match(r'^(macro_rules!|sol!|lazy_static!)', line):
                ctx = "opaque"
            out.append(line)
            continue
        if line.startswith("}") or (ctx == "opaque" and line.startswith(")")):
            ctx = None
            out.append(line)
            continue
        if ctx == "impl":
            line = RESTRICTED.sub("pub ", line)
            if METHOD.match(line):
                line = "    pub " + line[4:]
        elif ctx == "struct":
            line = RESTRICTED.sub("pub ", line)
            if FIELD.match(line):
                line = "    pub " + line[4:]
        out.append(line)
    return "\n".join(out)

def open_tuple(line):
    m = re.match(r'^(pub struct \w+)\((.*)\);$', line.rstrip())
    if not m or "," in m.group(2) or "<" in m.group(1):
        return line
    inner = m.group(2)
    return line if inner.startswith("pub") or not inner.strip() else f"{m.group(1)}(pub {inner});"
