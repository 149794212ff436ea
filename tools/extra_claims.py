DEC = ("TLA+ decoding specification, TLC-generated schema/document pairs "
       "replayed into derived decoders")
DN = ("TLC enumerates the documents of the check's type definitions over the "
      "pieces listed in lib/families.py and evaluates seeded random documents "
      "of these and of random types; the specification's verdict (value, or "
      "errors with kind, place and order) is compared with what the decoders "
      "derived for the same types, built from the working tree, return. "
      "Exhaustive within those bounds only.")
CLAIMED = {"C%d" % i: (DEC, DN) for i in list(range(11, 22)) + [24]}
CLAIMED["C22"] = (
    "TLA+ machine of the KDL language, TLC-generated documents decoded into AST types",
    "Documents as for C02; every accepted one is decoded into the AST node, value and literal types and into "
    "wrappers of them, and compared with the parsed tree. Exhaustive within the text bounds only.")
CLAIMED["C23"] = (
    "TLA+ machine of the KDL language, TLC-generated documents through the CBOR codec",
    "Documents as for C02; every accepted one is encoded, decoded, compared and encoded again, for both span "
    "types. Exhaustive within the text bounds only.")
CLAIMED["C25"] = (
    "TLA+ machine of type definitions, TLC-generated definitions given to rustc",
    "TLC enumerates definitions field by field and checks the theorems about the rules; the definitions (all short "
    "ones, a seeded sample of the longer ones) are compiled against the working tree's derive macros and what "
    "rustc accepts and rejects is compared with the specification's verdict.")
CLAIMED["C26"] = (
    "TLA+ refinement of spanned to plain values, TLC behaviours replayed",
    "TLC enumerates all behaviours of two spanned values and a map up to the depth of the tier, checks the "
    "refinement to plain values, and every behaviour is replayed on Spanned<T> for five types and both span types, "
    "in BTreeMap, HashMap and the sets.")
