EXT = "zz_verif/ext/"
V = ["vh", "vgen"]

def ext(ident, n, rule, files=None, **kw):
    i = ident.lower()
    return dict(pkg=EXT + i, files=["ext/" + f for f in files or [i + "_test.go"]], libs=V, n=n, rule=rule, **kw)

CHECKS = {
 "C01": ext("C01", 600000, "text of more than two characters and three bytes"),
 "C02": ext("C02", 500000, "tree of more than four nodes", ["c01_test.go","c02_test.go"]),
 "C03": ext("C03", 300000, "a changing edit was reparsed incrementally", ["c01_test.go","c02_test.go","c03_test.go"]),
 "C04": ext("C04", 400000, "the edited source kept leaves before or after the returned range", ["c01_test.go","c02_test.go","c04_test.go"]),
 "C05": ext("C05", 250000, "tree of more than five nodes", ["c01_test.go","c02_test.go","c04_test.go","c05_test.go"]),
 "C06": ext("C06", 500000, "text of more than one line and three bytes"),
 "C07": ext("C07", 500000, "an edit changed the text", ["c01_test.go","c02_test.go","c04_test.go","c06_test.go", "c07_test.go"]),
 "C08": ext("C08", 600000, "chain of more than two operands"),
 "C11": ext("C11", 550000, "text of more than eight bytes", ["c11_test.go","tokens_test.go","words_test.go"]),
 "C12": ext("C12", 400000, "trivia was changed in at least one place"),
 "C14": ext("C14", 600000, "raw text of more than six bytes", ["c09_test.go","tokens_test.go","words_test.go","c14_test.go"], bridge=["typst_syntax/bridge_mode.go"]),
 "C15": ext("C15", 16000, "nesting of more than 20, or repeated unit of more than two bytes", ["c01_test.go", "c02_test.go", "c04_test.go", "c05_test.go", "c15_test.go"], bridge=["typst_syntax/bridge_ast.go","typst_syntax/bridge_html.go","typst_syntax/bridge_err.go"]),
 "C09": ext("C09", 600000, "program of more than six bytes, or of three tokens", ["c09_test.go","tokens_test.go","words_test.go"], bridge=["typst_syntax/bridge_mode.go"]),
 "C10": ext("C10", 650000, "document of more than six bytes", ["c09_test.go","tokens_test.go","words_test.go","c10_test.go"], bridge=["typst_syntax/bridge_mode.go"]),
 "C16": ext("C16", 240000, "the expected view has more than four lines", ["c09_test.go","tokens_test.go","words_test.go","casts_test.go","c16_test.go"], bridge=["typst_syntax/bridge_ast.go","typst_syntax/bridge_mode.go"]),
 "C13": ext("C13", 400000, "literal, in its context, of more than six bytes", ["c13_test.go","tokens_test.go","words_test.go"], bridge=["typst_syntax/bridge_lit.go"]),
 "C17": ext("C17", 600000, "version other than 0.0.0, or specification of more than four bytes"),
 "C18": ext("C18", 600000, "version and bound with the same major part; bound of several parts; manifest with a compiler bound that should be valid", ["c17_test.go", "c18_test.go"]),
 "C19": ext("C19", 500000, "manifest of more than 60 bytes", ["c17_test.go", "c19_test.go"]),
 "C20": ext("C20", 6000, "more than three files asked for, or exhaustion of the IDs", race=True),
 "C21": ext("C21", 500000, "base with a slash, and at least one join", ["c20_test.go", "c21_test.go"]),
 "C22": ext("C22", 500000, "number above four, or a range", ["c20_test.go", "c22_test.go"]),
 "C23": ext("C23", 300000, "a set grew, or a program of more than twelve bytes", ["kinds_test.go", "c23_test.go"]),
 "C24": ext("C24", 300000, "the walk visits more than three nodes"),
 "C26": ext("C26", 300000, "tree of more than five nodes", ["c01_test.go", "c02_test.go", "c04_test.go", "c05_test.go", "places_test.go", "c26_test.go"], bridge=["typst_syntax/bridge_nav.go"]),
 "C25": ext("C25", 160000, "more than two highlighted spans", ["c01_test.go", "kinds_test.go", "places_test.go", "c25_test.go"], bridge=["typst_syntax/bridge_html.go"]),
 "C27": ext("C27", 20000, "more than eight bytes of source were printed", ["cmd_test.go", "c27_test.go"], bins=["parse-typ"]),
 "C29": ext("C29", 12000, "a package was copied, or a resource", ["cmd_test.go", "project_test.go", "c29_test.go"], bins=["offline-typ"]),
 "C30": ext("C30", 4000, "three sessions or more", ["c01_test.go", "c02_test.go", "c03_test.go", "c30_test.go"], bridge=["typst_syntax/bridge_html.go"], race=True),
 "C31": ext("C31", 500000, "the cursor moved in a text with characters of several bytes, or a container of more than two elements, or a character beyond ASCII"),
 "C32": ext("C32", 450000, "text of more than six bytes", ["c09_test.go","tokens_test.go","words_test.go", "c32_test.go"], bridge=["typst_syntax/bridge_mode.go"]),
 "C33": ext("C33", 600000, "text of more than three tokens", ["c33_test.go","tokens_test.go","words_test.go"]),
 "C35": ext("C35", 200000, "nodes outside of the reparsed range were kept; a word was edited", ["c01_test.go","c02_test.go","c04_test.go","c05_test.go","places_test.go","c35_test.go"]),
 "C34": ext("C34", 500000, "text of more than eight bytes", ["c34_test.go"], bridge=["typst_syntax/bridge_err.go"]),
 "C28": ext("C28", 15000, "an outdated import was updated", ["cmd_test.go", "project_test.go", "c28_test.go"], bins=["update-typ"]),
}
