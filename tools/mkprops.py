import json
I="src/kiutils/items/"; S="src/kiutils/"
ALL=[S+"board.py",S+"schematic.py",S+"footprint.py",S+"symbol.py",S+"wks.py",S+"dru.py",S+"libraries.py",I+"common.py",I+"fpitems.py",I+"gritems.py",I+"brditems.py",I+"dimensions.py",I+"schitems.py",I+"syitems.py",I+"zones.py"]
FILES=[S+x for x in ("board.py","schematic.py","footprint.py","symbol.py","wks.py","dru.py","libraries.py")]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    return d
RD=("readers: every from_sexpr class method","src/kiutils/**/*.py"); WR=("writers: every to_sexpr method","src/kiutils/**/*.py")
P=[
p("C01","Loading and saving again loses nothing the loader understood",
 "Every attribute that loading an item fills in from its expression appears again in what saving that item produces, whenever the attribute holds a value other than the one it would have if the token were absent. Whether an attribute is written never depends on the value of an unrelated attribute.",
 ["inputs"],"for every item type, every attribute and every combination of attribute values",
 "Tests round-trip a few sample files; an attribute that is only lost for one item type in one combination of optional tokens is never sampled.",ALL,[RD,WR],["text returned by serialising an item"]),
p("C02","Saving an item and loading the text back gives an equal item",
 "For every item type and all attribute values allowed by the declared types, parsing the text an item serialises to and loading it yields an item whose persisted attributes equal the originals: each value is read back from the same token and position it was written to, and decoded as it was encoded. The loader never fails on text the matching saver produced.",
 ["inputs"],"for every item type and every assignment of attribute values",
 "Tests compare output text with sample files only; they do not build items with arbitrary attribute combinations.",ALL,[RD,WR,("tokeniser","src/kiutils/utils/sexpr.py:parse_sexp")],["attributes of the re-loaded item"]),
p("C03","Saved text is always one balanced, properly separated S-expression",
 "Whatever combination of optional attributes, flags and list lengths an item holds, its serialised text has matching parentheses and quotes, and neighbouring tokens and values are always separated so that none of them merges with another. Numbers are always followed by a character the parser accepts as the end of a number.",
 ["inputs"],"for every combination of set/unset optional attributes, flag values and list lengths (including empty lists) of every item type",
 "The number of combinations of optional attributes is exponential; sample files exercise a handful.",ALL,[WR]),
p("C04","Free text is quoted and escaped wherever it is written",
 "Any user-supplied text (names, values, descriptions, library links, layer names, paths, comments) is written inside double quotes with embedded double quotes escaped, so that spaces, parentheses and quotes in it can neither end the token early nor alter the structure of the file. Escaping is applied exactly once.",
 ["inputs"],"for every text attribute of every item type and every string value",
 "Sample files contain few quotes or unusual characters, and only in a few attributes.",ALL,[WR,("escaping helper","src/kiutils/utils/strings.py:dequote")]),
p("C05","Unset optional values leave no trace; set ones are never skipped",
 "An optional attribute that is unset produces no token at all and the text never contains the word for a null value, a language-level container or class representation in its place. An optional attribute that is set is always written, also when its value is zero, false, or an empty text.",
 ["inputs"],"for every optional attribute of every item type, for unset and for every set value including 0, 0.0, False and ''",
 "Tests only use the optional combinations of their sample files and hardly any falsy values.",ALL,[WR,("declared optional attributes","dataclass fields of every item class")]),
p("C06","Each token sets only its own attribute; absent or unknown tokens change nothing",
 "When an item is loaded, an attribute whose token is absent keeps its declared default, a token changes only the attribute(s) it stands for, and the result does not depend on the order of the optional child tokens. Child tokens the library does not know are skipped without an error and without changing any attribute.",
 ["inputs"],"for every subset and order of child tokens of every item type, and for every unknown token",
 "Sample files contain tokens in KiCad's canonical order and all of them known.",ALL,[RD]),
p("C07","Loaders reject expressions that are not theirs",
 "Loading an item from something that is not a list, or from a list whose leading token is not one belonging to that item, raises an exception instead of returning an item. Expressions with the item's own leading token are never rejected for carrying extra or missing optional children.",
 ["inputs"],"for every item type and every malformed or foreign expression",
 "Only valid sample files are loaded by the tests.",ALL,[("type and head-token guards at the top of every from_sexpr","src/kiutils/**/*.py")]),
p("C08","Lists and properties keep all elements, once each and in order",
 "Every list or mapping held by an item (pads, graphics, points, pins, nets, layers, properties and so on) is loaded and saved completely: each element exactly once, with its own data, in the original relative order, for any number of elements. Repeated tokens accumulate rather than overwrite each other.",
 ["inputs"],"for every list/mapping attribute, every length and every content including duplicate elements",
 "Tests see only the lengths and orders in sample files.",ALL,[RD,WR]),
p("C09","Items are independent of each other and of the parsed input",
 "Two items created separately, by construction, by a create function or by loading, never share mutable state, so changing one never changes another or what later items start with. Loading does not modify the parsed expression it is given, and a loaded item does not hold on to mutable parts of it.",
 ["histories"],"for every sequence of creating, loading and modifying items in one process",
 "Tests build each item once and do not compare items created before and after others are modified.",ALL+[S+"utils/sexpr.py"],[("default factories of dataclass fields","src/kiutils/**/*.py"),RD]),
p("C10","Saving does not alter the item and is deterministic",
 "Serialising an item, any number of times and in any order with other items, leaves all of its attributes unchanged and always produces the same text. Neither loading nor saving depends on time, randomness, environment, global state or previous calls.",
 ["histories"],"for every sequence of serialisations and loads",
 "Tests serialise each item once.",ALL,[WR,RD]),
p("C11","Files are loaded from and saved to the right place, never half-written",
 "Loading a file records its path on the loaded object; saving goes to the explicitly given path or else to the recorded one, and raises if there is neither; loading a path that is not an existing file raises. If producing the text fails, an existing file at the target is left untouched.",
 ["inputs","histories","fault_sequences"],"for every file type, every combination of given and recorded paths, and every failure while producing the text",
 "Tests load and save fixed paths successfully; they do not exercise failing serialisation or missing paths for all file types.",FILES,[("from_file / to_file","src/kiutils/*.py")]),
p("C12","Library identifiers split and join without loss",
 "For symbols and footprints, the identifier reported is the library nickname and entry name joined by a colon when a nickname is set and the entry name alone otherwise, including unit and style numbers for symbol units. Assigning an identifier sets the parts so that reading the identifier returns what was assigned, and leaves no stale part from the previous one. A text with something on both sides of a colon sets the library nickname, and one ending in two numbers set off by underscores the unit and style number of a symbol unit.",
 ["inputs","histories"],"for every identifier text and every sequence of assignments",
 "Tests use a few identifiers.",[S+"symbol.py",S+"footprint.py",I+"schitems.py"],[("libId properties","src/kiutils/symbol.py, footprint.py, items/schitems.py")]),
p("C13","The parser reads every well-formed text faithfully and rejects unbalanced ones",
 "Parsing text with unmatched parentheses raises instead of returning a truncated or merged structure. Quoted text is returned with exactly the escaping removed that saving applies, unquoted numbers become numbers of equal value, quoted numbers stay text, and the order and nesting of elements is preserved.",
 ["inputs"],"for every input text",
 "Tests parse a few sample files and no malformed text.",[S+"utils/sexpr.py",S+"utils/strings.py"],[("tokeniser regular expression and parser loop","src/kiutils/utils/sexpr.py:parse_sexp"),("escaping helper","src/kiutils/utils/strings.py:dequote")]),
p("C14","Indentation and newline options affect white space only",
 "The indentation and trailing-newline options of serialisation change nothing but white space between tokens: the sequence of tokens and values is the same for every setting. An item serialised without trailing newline ends with its closing parenthesis.",
 ["configurations","inputs"],"for every item type, indentation depth and newline setting",
 "Tests always use the default layout.",ALL,[WR]),
p("C15","Newly created files and items are complete and loadable",
 "Every object obtained from a create function serialises without error to text the same type can load back, carries the library's version and generator identification where the format has them, and holds the arguments passed to the create function.",
 ["inputs"],"for every create function and every argument value",
 "Tests create a few objects with fixed arguments.",FILES,[("create_new class methods","src/kiutils/*.py"),("version constants","src/kiutils/misc/config.py")]),
p("C16","The chosen text encoding is used for every file access",
 "Every load and save operation accepts a text encoding, uses exactly this encoding to open the file, and leaves the choice to the platform default only when none is given.",
 ["configurations"],"for every file type, load or save, and every encoding",
 "Tests run with the platform default encoding and one sample.",FILES,[("open() calls in from_file / to_file","src/kiutils/*.py")]),
p("C17","Flags and keywords are written and understood with the same words",
 "For every yes/no, true/false or bare-keyword flag and every enumerated keyword, each value is written with a word that loading maps back to that same value, and each word loading recognises is one that saving can produce for that value or a documented older form of it.",
 ["inputs"],"for every flag or keyword attribute and each of its values",
 "Sample files contain mostly one value of each flag.",ALL,[RD,WR]),
p("C18","Numbers are saved at full precision",
 "Coordinates, sizes, angles, widths and other numbers are written with the value they hold: no rounding, truncation, scaling, offset or sign change is applied on load or save, except for the colour alpha and plot ratio fields that the KiCad format writes with a fixed number of decimals.",
 ["inputs"],"for every numeric attribute of every item type and every value",
 "Sample files have few decimals and small values.",ALL,[RD,WR]),
p("C19","Containers hand each element to the item type that owns it",
 "Every child element a board, schematic, footprint, symbol, sheet or other container recognises is loaded as the item type that accepts that token and that writes the same token, and it lands in the collection from which it is saved. No recognised child makes loading fail because it was handed to the wrong item type.",
 ["inputs"],"for every child token recognised by every container",
 "Sample files do not contain each child type in each container.",ALL,[("dispatch on the child's leading token in the container readers","src/kiutils/**/*.py")]),
p("C20","Saved files are accepted by KiCad with the same meaning",
 "Any file saved by the library is accepted by the matching KiCad version and shows the same design.",
 ["inputs"],"for every saved file","Needs the KiCad application as oracle.",ALL,[WR]),
p("C21","Every finite number survives the trip through text",
 "Writing any finite number and parsing it back gives a number of equal value, also for very small or very large magnitudes.",
 ["inputs"],"for every finite number","Sample files hold ordinary magnitudes only.",[S+"utils/sexpr.py"],[("number branch of the tokeniser","src/kiutils/utils/sexpr.py:parse_sexp")]),
p("C22","Parsing time grows in proportion to file size",
 "Loading a file takes time proportional to its length, for every content including long quoted texts.",
 ["inputs"],"for every input text","Tests use small files and no timing.",[S+"utils/sexpr.py"],[("tokeniser","src/kiutils/utils/sexpr.py:parse_sexp")]),
]
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+"\n")
