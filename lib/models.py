"""TLC models per property: which module, which bounds, which of its invariants."""

B_FULL = "{1, 65, 127, 128, 131, 132, 135, 136, 143, 144, 159, 160, 175, 176, 191, 192, 193, 194, 223, 224, 225, 237, 239, 240, 244, 245, 247, 248, 251, 252, 253, 254, 255}"
B_PAIR = "{65, 128, 159, 160, 176, 191, 195, 224, 237, 240, 252}"
U16 = "{1, 65, 127, 128, 2047, 2048, 55295, 55296, 56000, 56319, 56320, 57000, 57343, 57344, 65535}"
U32 = "{1, 127, 128, 2047, 2048, 55295, 55296, 57343, 57344, 65535, 65536, 1114111, 1114112, 2097151, 2097152, 67108863, 67108864, 2147483647}"


def utf8(inv, props=""):
    def cfg(bytes_, n):
        return (f"CONSTANTS\n Bytes = {bytes_}\n MaxLen = {n}\nSPECIFICATION Spec\nINVARIANTS {inv}\n"
                + (f"PROPERTIES {props}\n" if props else "") + "CHECK_DEADLOCK FALSE\n")
    return lambda thorough: [("MCUtf8", cfg(B_FULL, 4 if thorough else 3), "MCUtf8 (33 bytes)"),
                             ("MCUtf8", cfg(B_PAIR, 7 if thorough else 5), "MCUtf8 (surrogate pairs, 11 bytes)")]


def units(inv):
    return lambda thorough: [("MCUnits", f"CONSTANTS\n Units16 = {U16}\n Units32 = {U32}\n MaxLen = {4 if thorough else 3}\nSPECIFICATION Spec\nINVARIANTS {inv}\nCHECK_DEADLOCK FALSE\n", "MCUnits")]


def text(inv, props):
    return lambda thorough: [("MCText", f"CONSTANTS\n Alphabet = {{0, 32, 97, 255}}\n MaxLen = {7 if thorough else 5}\nSPECIFICATION Spec\nINVARIANTS {inv}\nPROPERTIES {props}\nCHECK_DEADLOCK FALSE\n", "MCText")]


def lenscan(thorough):
    return [("LenScan", f"CONSTANTS\n Bytes = {{0, 65, 159, 160, 176, 195, 237, 240}}\n MemLen = {5 if thorough else 4}\nSPECIFICATION Spec\nINVARIANTS StaysInside AnswersAsSpecified Blind AsTheString\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\n", "LenScan")]


MODELS = {
    "C01": [utf8("MachineMatchesGrammar Incremental Accepted NoSurrogates", "BrokenStays PrefixKept")],
    "C02": [utf8("Accepted Narrowing NoSurrogates"), units("Declared16 Narrowing")],
    "C03": [utf8("MachineMatchesGrammar Incremental CutIgnored IsImpliesTo", "PrefixKept")],
    "C04": [units("Declared16 IsImpliesTo RoundTrip")],
    "C05": [utf8("RoundTrip NoGrowth"), units("RoundTrip")],
    "C06": [utf8("IsImpliesTo"), units("IsImpliesTo")],
    "C07": [utf8("CutIgnored", "BrokenStays"), units("CutIgnored")],
    "C08": [lenscan],
    "C09": [utf8("LengthBounded CutIgnored"), units("Lengths CutIgnored")],
    "C15": [utf8("SourceUnicode SourcePages")],
    "C16": [text("JoinUndoesSplit CountsPieces PiecesAreFree SplitUndoesJoin OnlyExceptions JoinLength", "SplitStepwise")],
    "C17": [utf8("TrimTwice"), text("TrimIdempotent TrimEnds TrimKeeps TrimMonotone", "TrimStepwise")],
    "C18": [units("Wide32 Wide16")],
    "C19": [units("Tchar Wide16")],
    "C21": [utf8("CursorWalk MachineMatchesGrammar")],
}


def models(prop, thorough):
    small = lambda cfg: cfg.replace("SPECIFICATION", "CONSTANT BlockSize <- SmallBlock\nSPECIFICATION", 1)
    return [(m, small(cfg), name) for f in MODELS.get(prop, []) for m, cfg, name in f(thorough)]
