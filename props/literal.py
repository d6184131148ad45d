"""C01: numeric literals.  C02: boolean and enumerated tokens."""
import re

from props.svdxml import *

DEC = "0123456789"
HEX = "0123456789abcdefABCDEF"


def _doc(level, tag, text):
    """A device whose (level, tag) element has the given text; every other content fixed."""
    if level == "range":
        n = Node("writeConstraint")
        n.kids.append(Range((text if tag == "minimum" else "3", None), (text if tag == "maximum" else "4", None)))
        return wrap(n)
    n = plain_node(level)
    n.values[tag] = (text, None)
    return wrap(n)


def _got(device, level, attr):
    if level == "range":
        return locate(device, "writeConstraint").range_[attr]
    return getattr(locate(device, level), attr)


def _slot(sx, lo, hi):
    return sx.pick("where", numeric_slots()[lo:hi])


def _form(sx, form, n, least=1):
    """(literal text, value)"""
    if form == "dec":
        t = sx.text("digits", least, n, DEC)
        return t, sx.parse(t, 10)
    if form == "plus":
        t = sx.text("digits", least, n, DEC)
        return "+" + t, sx.parse(t, 10)
    if form == "zeros":
        t = sx.text("digits", least, n, DEC)
        return "00" + t, sx.parse(t, 10)
    if form in ("0x", "0X"):
        t = sx.text("digits", least, n, HEX) if least == 1 else sx.text("high", n - 3, n - 3, DEC) + sx.text("digits", 3, 3, HEX)
        return form + t, sx.parse(t, 16)
    t = sx.text("digits", least, n, "01")
    return form + t, sx.parse(t, 2)


def accepted(sx, form, n, lo, hi, exact=False):
    """every literal of the form with up to n digits, at a slice of the numeric elements"""
    level, tag, attr = _slot(sx, lo, hi)
    text, want = _form(sx, form, n, n if exact else 1)
    out = parse(sx, _doc(level, tag, text))
    sx.observe("outcome", out.kind)
    sx.check(out.ok, "a literal in a documented notation is accepted")
    if out.ok:
        got = _got(out.value, level, attr)
        sx.observe("value", got)
        sx.check(sx.eq(got, want), "a literal denotes the value of its notation")
        sx.check(quiet(sx, out), "nothing to report")
    sx.reach()


def refused(sx, n, lo, hi, alphabet):
    """every text of n characters: either a documented literal with its value, or an error"""
    level, tag, attr = _slot(sx, lo, hi)
    t = sx.text("t", n, n, alphabet)
    out = parse(sx, _doc(level, tag, t))
    sx.observe("outcome", out.kind)
    neg = False
    body = t
    if t[0] == "+" or t[0] == "-":
        neg = t[0] == "-"
        body = t[1:]
    want = None
    if re.fullmatch(r"[0-9]+", body):
        want = sx.parse(body, 10)
    elif re.fullmatch(r"0[xX][0-9a-fA-F]+", body):
        want = sx.parse(body[2:], 16)
    elif re.fullmatch(r"#[01]+", body):
        want = sx.parse(body[1:], 2)
    elif re.fullmatch(r"0[bB][01]+", body):
        want = sx.parse(body[2:], 2)
    if want is None:
        sx.check(out.isa("NotImplementedError", "ParserException"), "a text that is no number is refused")
    else:
        if neg:
            # negative numbers do not exist in the format; if tolerated, the value must be the negative
            sx.check(out.isa("NotImplementedError", "ParserException") or (out.ok and sx.eq(_got(out.value, level, attr), 0 - want)),
                     "a negative number is refused or read as such")
        else:
            sx.check(out.ok, "a literal in a documented notation is accepted")
            if out.ok:
                sx.check(sx.eq(_got(out.value, level, attr), want), "a literal denotes the value of its notation")
    sx.reach()


BOOLS = [(level, t, a) for level in LEVELS for t, a, k in LEVELS[level][2] + LEVELS[level][3] if k == "bool"]
TOKENS = {
    "CPUNameType": ["CM0", "CM0PLUS", "CM0+", "CM1", "CM3", "CM4", "CM7", "CM23", "CM33", "CM35P", "CM52", "CM55", "CM85",
                    "SC000", "SC300", "ARMV8MML", "ARMV8MBL", "ARMV81MML", "CA5", "CA7", "CA8", "CA9", "CA15", "CA17", "CA53",
                    "CA57", "CA72", "SMC1", "other"],
    "EndianType": ["little", "big", "selectable", "other"],
    "ProtectionStringType": ["s", "n", "p"],
    "SauAccessType": ["c", "n"],
    "AccessType": ["read-only", "write-only", "read-write", "writeOnce", "read-writeOnce"],
    "EnumeratedTokenType": ["registers", "buffer", "reserved"],
    "DataTypeType": ["uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t", "uint8_t *",
                     "uint16_t *", "uint32_t *", "uint64_t *", "int8_t *", "int16_t *", "int32_t *", "int64_t *"],
    "ModifiedWriteValuesType": ["oneToClear", "oneToSet", "oneToToggle", "zeroToClear", "zeroToSet", "zeroToToggle", "clear",
                                "set", "modify"],
    "ReadActionType": ["clear", "set", "modify", "modifyExternal"],
    "EnumUsageType": ["read", "write", "read-write"],
}
MEANING = {
    "CM0+": "CM0_PLUS", "s": "SECURE", "p": "PRIVILEGED", "c": "NON_SECURE_CALLABLE", "n": "NON_SECURE",
    "read-only": "READ_ONLY", "write-only": "WRITE_ONLY", "read-write": "READ_WRITE", "writeOnce": "WRITE_ONCE",
    "read-writeOnce": "READ_WRITE_ONCE", "oneToClear": "ONE_TO_CLEAR", "oneToSet": "ONE_TO_SET",
    "oneToToggle": "ONE_TO_TOGGLE", "zeroToClear": "ZERO_TO_CLEAR", "zeroToSet": "ZERO_TO_SET",
    "zeroToToggle": "ZERO_TO_TOGGLE", "modifyExternal": "MODIFY_EXTERNAL", "any": "ANY",
}


def meaning(token):
    if token in MEANING:
        return MEANING[token]
    return token.replace(" *", "_PTR").upper()


ENUMS = [(level, t, a, k.__name__) for level in LEVELS for t, a, k in LEVELS[level][2] + LEVELS[level][3]
         if not isinstance(k, str)]


def bools(sx, n, lo, hi):
    """every text of up to n characters at a boolean element"""
    level, tag, attr = sx.pick("where", BOOLS[lo:hi])
    t = sx.text("t", 1, n, "trufalseTRUFALSE01yn")
    out = parse(sx, _doc(level, tag, t))
    sx.observe("outcome", out.kind)
    low = t.lower()
    yes = sx.Or(sx.eq(low, "true"), sx.eq(t, "1"))
    no = sx.Or(sx.eq(low, "false"), sx.eq(t, "0"))
    sx.check(sx.eq(sx.Or(yes, no), out.ok), "exactly the boolean tokens are accepted")
    sx.check(out.ok or out.isa("NotImplementedError"), "any other token is refused")
    if out.ok:
        sx.check(sx.eq(_got(out.value, level, attr), yes), "a boolean token has its value")
    sx.reach()


def tokens(sx, enum, mutate):
    """every documented token, and every text differing from one in a single character, at every element of the kind"""
    level, tag, attr, kind = sx.pick("where", [e for e in ENUMS if e[3] == enum])
    tok = sx.pick("token", TOKENS[enum])
    text = tok
    if mutate:
        i = sx.pick("at", list(range(len(tok) + 1)))
        c = sx.text("c", 1, 1, "abcdeghilmnoprstuvwxyzABCEGILMNOPRSTVW0123456789+-_")
        text = tok[:i] + c + tok[i + 1:]
    out = parse(sx, _doc(level, tag, text))
    sx.observe("outcome", out.kind)
    want = None
    for t in TOKENS[enum] + (["any"] if enum == "ProtectionStringType" else []):
        same = sx.eq(text, t)
        if enum in ("CPUNameType", "AccessType"):
            same = sx.eq(text.lower(), t.lower())
        if same:
            want = meaning(t)
    if enum == "AccessType" and want is None:
        if sx.eq(text.lower(), "read"):
            want = "READ_ONLY"
        elif sx.eq(text.lower(), "write"):
            want = "WRITE_ONLY"
    if want is not None:
        # processor names are also taken in other letter cases; refusing these would be as right
        if enum != "CPUNameType" or out.ok or sx.isin(text, TOKENS[enum]):
            sx.check(out.ok, "a documented token is accepted")
        if out.ok:
            sx.check(sx.eq(_got(out.value, level, attr).name, want), "a token yields the value it names")
    elif enum == "AccessType":
        sx.check(out.ok, "an unknown access type does not fail")
        if out.ok:
            sx.check(_got(out.value, level, attr) is None, "an unknown access type is treated as not given")
            sx.check(warned(sx, out, "AccessType"), "an unknown access type is reported")
    elif enum == "CPUNameType" and sx.eq(text.lower(), "cm0_plus"):
        pass
    else:
        sx.check(out.isa("NotImplementedError"), "any other token is refused")
    sx.reach()


def case(sx, enum):
    """letter case variants: access types and processor names in any case, all others exactly as documented"""
    level, tag, attr, kind = sx.pick("where", [e for e in ENUMS if e[3] == enum][:2])
    tok = sx.pick("token", TOKENS[enum])
    how = sx.pick("how", ["upper", "lower", "capitalize", "swap"])
    text = tok.upper() if how == "upper" else tok.lower() if how == "lower" else tok.capitalize() if how == "capitalize" else tok.swapcase()
    out = parse(sx, _doc(level, tag, text))
    sx.observe("outcome", out.kind)
    if text in TOKENS[enum] or enum == "AccessType" or (enum == "CPUNameType" and out.ok):
        sx.check(out.ok, "a documented token is accepted")
        if out.ok:
            sx.check(sx.eq(_got(out.value, level, attr).name, meaning(tok)), "a token yields the value it names")
    else:
        sx.check(out.isa("NotImplementedError"), "any other token is refused")
    sx.reach()
