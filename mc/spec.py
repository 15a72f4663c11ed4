"""Single source of properties.jsonl and MANIFEST.json: python3 mc/spec.py rewrites both."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "bondrewd-derive/src/"
S = D + "structs/"


def P(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, state=state, observe=observe)


LOCK = "explicit-state model checking: bounded exhaustive lockstep exploration of the derived code against a reference transition system"
ACC = "bounded exhaustive enumeration of declarations, the real derive run on each, verdict and sizes compared with the reference model"
TWIN = "bounded exhaustive lockstep exploration of two derived implementations against each other"
NOTE = ("Every declaration of the enumerated spaces is derived by the working tree's macro and compiled; every state of the listed value and buffer alphabets is visited and every "
        "operation's real result compared with the reference model's, so each model step is replayed on the implementation. Beyond the bounds (DESIGN.md) nothing is claimed; rustc is trusted.")
ANOTE = "Every declaration of the enumerated spaces is expanded by the working tree's macro and type-checked by rustc; the verdict (and the size constants, evaluated by rustc) have to equal the documented rule's. Bounds in DESIGN.md."
MATH_W = [dict(name="little / big / no endianness write math", where=S + "into_bytes.rs: apply_{le,ne,be}_math_to_field_access_quote")]
MATH_R = [dict(name="little / big / no endianness read math", where=S + "from_bytes.rs: apply_{le,ne,be}_math_to_field_access_quote"), dict(name="sign fix", where=S + "from_bytes.rs: add_sign_fix_quote")]
PLACE = [dict(name="bit positions", where=S + "common.rs: BitMath, ObjectInfo::parse_fields"), dict(name="attribute parsing", where=S + "parse.rs: FieldAttrBuilder::parse")]
SAMPLE = "The existing tests check a handful of structures with one or two values each; "

PROPS = [
    P("C01", "into_bytes places every bit where the declaration says",
      "For every supported structure and every value, into_bytes returns the byte array in which each field occupies exactly its declared bits (sequential or pinned by a bits range, traversed msb0 or lsb0, bytes reversed or not), "
      "encoded in the declared endianness, most significant bit first; all bits that belong to no field are zero. Bits of a value above its field's length are dropped and never reach a neighbouring field.",
      ["programs", "inputs"], "all combinations of field type, bit length, bit offset, endianness, traversal and byte order within the enumerated spaces, all values of the value alphabets",
      SAMPLE + "the layout arithmetic has separate paths per type, length class, offset, endianness and direction, whose product no test list covers.",
      [S + "into_bytes.rs", S + "common.rs", S + "parse.rs"], MATH_W + PLACE, LOCK, NOTE,
      [dict(name="byte array", meaning="packed value", where="result of into_bytes")], ["Bitfields::into_bytes"]),
    P("C02", "from_bytes(into_bytes(v)) gives v back",
      "For every supported structure or enum and every value, packing and unpacking returns the same variant with every written field equal to the original truncated to its field's bit length (sign extended when signed), "
      "and packing that result again gives the same bytes.",
      ["programs", "inputs"], "all declarations of the enumerated spaces with all values of the value alphabets, including values wider than their field",
      SAMPLE + "a round trip failing only for one length, offset, sign or direction is not seen.",
      [S + "into_bytes.rs", S + "from_bytes.rs"], MATH_W + MATH_R, LOCK, NOTE, [], ["Bitfields::into_bytes", "Bitfields::from_bytes"]),
    P("C03", "from_bytes and read_ functions decode any bytes exactly",
      "For every supported structure and every byte array, from_bytes and each single-field read function return the number formed by exactly the field's bits in its declared order and endianness, "
      "whatever the surrounding bits hold. Both ways of reading a field agree.",
      ["programs", "inputs"], "all declarations of the enumerated spaces, all buffers up to one or two bytes and a bit-complete pattern set above",
      SAMPLE + "and feed only bytes that into_bytes produced, so bits outside the fields are always zero.",
      [S + "from_bytes.rs", S + "common.rs"], MATH_R + PLACE, LOCK, NOTE, [], ["Bitfields::from_bytes", "read_<field>"]),
    P("C04", "write_ functions change exactly their field's bits",
      "Writing one field of a byte array sets that field's bits to the value's low bits and leaves every other bit of the array unchanged, for every prior content and in every order of writes. "
      "Writing all fields one after the other into a zeroed array gives into_bytes.",
      ["programs", "inputs", "histories"], "all declarations of the enumerated spaces, all write operations from every buffer of the alphabet, breadth first to closure for small structures and to the stated depth otherwise",
      "The existing tests hardly call the write functions and never on dirty buffers; what a write destroys depends on the previous content and on the sequence of writes.",
      [S + "into_bytes.rs"], MATH_W + [dict(name="clearing", where=S + "into_bytes.rs: get_clear_quote")], LOCK, NOTE,
      [dict(name="buffer", meaning="byte array reached by a sequence of writes", where="argument of write_<field>")], ["write_<field>", "write_variant_id"]),
    P("C05", "Enums: id bits, dispatch to variants and payload layout",
      "An enum packs its id into the leading id bits and the variant's fields behind it with the same rules as a structure, for every id size, endianness and direction, and whatever endianness, fill_bytes, read_from or reverse single variants declare for themselves; unused bits are zero. "
      "Unpacking selects the variant whose id the bits hold, or the catch-all variant for any other id, and id() of a value without captured id is its variant's id. "
      "read_variant_id and write_variant_id access exactly the id bits, and the per-variant field accessors exactly the field's bits.",
      ["programs", "inputs"], "all enums of the enumerated spaces (id sizes 1 to 128 bits, explicit, implicit and mixed ids, every place of the catch-all), every id of ids up to ten bits, all payload values and buffers of the alphabets",
      SAMPLE + "enum tests use one id size and read back only ids that exist.",
      [S + "common.rs", S + "from_bytes.rs", S + "into_bytes.rs", D + "lib.rs"],
      [dict(name="id field", where=S + "common.rs: EnumInfo::generate_id_field"), dict(name="variant match", where=S + "from_bytes.rs: create_from_bytes_field_quotes_enum")], LOCK, NOTE, [],
      ["into_bytes", "from_bytes", "id", "read_variant_id", "write_variant_id"]),
    P("C06", "capture_id keeps the id that was read",
      "A field marked capture_id holds exactly the id found in the bytes, also when that id belongs to no variant; id() returns it and packing the value writes it back, so unknown ids survive a round trip. "
      "The field is the id: it has the id's byte order in every function, whatever endianness its variant declares. The payload of such a variant is placed as if the field was not there, and only a first field of the id's unsigned type can be a captured id.",
      ["programs", "inputs"], "all id sizes of the space, captured in the catch-all, in numbered variants or in all, tuple or named, every traversal, all ids of ids up to ten bits",
      "One example and two tests exist, with 8 and 16 bit ids in declaration order.",
      [S + "common.rs", S + "from_bytes.rs", S + "into_bytes.rs"], [dict(name="captured id", where=S + "common.rs: ReserveFieldOption::FakeField")], LOCK + "; declarations enumerated through the derive", NOTE, [], ["from_bytes", "into_bytes", "id"]),
    P("C07", "BitfieldEnum conversions are exact over all of u8",
      "from_primitive maps every number to the variant with that number (declared, or counted up around the declared ones) and every other number to the catch-all; a catch-all that stores its number stores exactly it. "
      "into_primitive is the inverse, so a value survives the trip through its number, and a primitive enum as a field of n bits behaves as its number in n bits. "
      "Duplicate or unrepresentable numbers and more than one catch-all are compile errors.",
      ["programs", "inputs"], "all primitive enums of up to four variants over the literal menu with every catch-all at every place, all 256 numbers, all variants; fields of 1 to 8 bits at all offsets",
      "The tests hold few enums and try few numbers; numbering depends on the order of declared and undeclared literals.",
      [D + "enums/parse.rs", D + "enums/from_bytes.rs", D + "enums/into_bytes.rs"], [dict(name="numbering and catch-all", where=D + "enums/parse.rs: EnumInfo::parse")], LOCK + "; declarations enumerated through the derive", NOTE, [],
      ["BitfieldEnum::from_primitive", "BitfieldEnum::into_primitive"]),
    P("C08", "Hex functions: exact encoding, strict decoding",
      "into_hex_upper and into_hex_lower give the two hex digits of each byte of into_bytes in order; the hex decoders accept digits of either case and give what from_bytes gives for the decoded bytes. "
      "Any other character is reported with the character and the index of the first one, and slices or vectors that are too short are reported with given and needed length; nothing panics.",
      ["programs", "inputs"], "declarations of the enumerated spaces; every byte value at every text position, every second bad character, every text length from 0 to three more than needed, all buffers and values of the alphabets",
      "Two tests convert one value; no malformed text is tried.",
      ["bondrewd/src/hex.rs", "bondrewd/src/error.rs", D + "lib.rs"], [dict(name="decoding", where="bondrewd/src/hex.rs: from_hex, from_hex_slice, from_hex_vec")], LOCK, NOTE, [], ["BitfieldHex", "BitfieldHexDyn"]),
    P("C09", "from_slice and from_vec equal from_bytes or report the length",
      "from_slice and from_vec give exactly the value from_bytes gives for the first BYTE_SIZE bytes, whatever follows; with fewer bytes they return an error holding the given and the needed number of bytes. "
      "from_vec removes exactly the bytes it used from the front of the vector and leaves it alone when it fails.",
      ["programs", "inputs"], "declarations of the enumerated spaces, every length from 0 to two more than needed, pattern buffers",
      SAMPLE + "the slice functions are generated by separate code and tested with exact lengths only.",
      [D + "lib.rs", S + "from_bytes.rs"], [dict(name="from_slice / from_vec", where=D + "lib.rs: derive_bitfields")], LOCK, NOTE, [], ["BitfieldsDyn::from_slice", "BitfieldsDyn::from_vec"]),
    P("C10", "BIT_SIZE, BYTE_SIZE and fill_bytes",
      "BIT_SIZE is the number of bits the declared fields occupy (for enums the id and the largest variant) and BYTE_SIZE its bytes rounded up, for every way of giving lengths and ranges. "
      "fill_bytes makes the type exactly that many bytes with zero filler behind the fields and moves no field.",
      ["programs", "configurations"], "all declarations of the enumerated spaces; fill_bytes for every size of 1 to 25 (thorough 40) bits with 0, 1, 2 and 5 extra bytes in all traversals",
      SAMPLE + "sizes are asserted for a few.",
      [S + "common.rs", S + "parse.rs", D + "lib.rs"], [dict(name="totals", where=S + "common.rs: StructInfo::total_bits, EnumInfo::total_bits, parse_fields")], LOCK + "; declarations enumerated through the derive", NOTE, [], ["BIT_SIZE", "BYTE_SIZE"]),
    P("C11", "reserve, read_only, redundant and overlapping fields",
      "A reserve field packs as zeros and unpacks as the type's default; a read_only field is never packed but read from the bytes; a redundant field reads the bits of the fields it mirrors, moves no other field and never influences packing. "
      "The direct read and write functions of all of them still access their real bits, and all other fields are unaffected.",
      ["programs", "inputs"], "all assignments of the roles to three fields, redundant fields over 1 to 16 bits, overlaps of 1 to 8 bits, pinned ranges with gaps in every order, in structures and variants, all traversals",
      SAMPLE + "roles are tested one at a time in one position.",
      [S + "common.rs", S + "from_bytes.rs", S + "into_bytes.rs", S + "parse.rs"], [dict(name="roles", where=S + "common.rs: ReserveFieldOption, OverlapOptions")], LOCK, NOTE),
    P("C12", "Arrays pack their elements consecutively",
      "An array field packs its elements in ascending order, each in its element length (element and evenly split arrays) or in full width with the first element taking what is left (block arrays), and reads them back the same way, "
      "for every element type (nested bitfields and primitive enums included), length, count, offset, endianness and traversal, whether the place is given by lengths or by a bits range.",
      ["programs", "inputs"], "all element types with a menu of (thorough: many more) lengths and counts at all offsets; block arrays of every total; default, byte and total lengths; every way to give place and length, the attributes in every order",
      SAMPLE + "arrays are tested with three shapes.",
      [S + "common.rs", S + "from_bytes.rs", S + "into_bytes.rs"], [dict(name="element iterators", where=S + "common.rs: ElementSubFieldIter, BlockSubFieldIter")], LOCK, NOTE),
    P("C13", "Nested bitfields keep their own layout inside the outer one",
      "A field whose type is itself a bitfield occupies the leading bits of that type's own packing at the field's place, at every offset, alone or in arrays, to any depth; reading and writing it touches only those bits. "
      "A nested size that is not the type's own byte size is a compile error.",
      ["programs", "inputs"], "inner types of the size menu in all traversals at every bit offset in outer types of all traversals, arrays of them, three levels, enums in structures and structures in enums",
      SAMPLE + "nested tests are byte aligned.",
      [S + "from_bytes.rs", S + "into_bytes.rs"], [dict(name="nested struct access", where="apply_ne_math_to_field_access_quote")], LOCK + "; declarations enumerated through the derive", NOTE),
    P("C14", "Unsupported declarations are compile errors, supported ones compile",
      "Every declaration within the documented rules on lengths, types, attribute values, id sizes and captured ids is accepted and its generated code compiles; every declaration outside them (lengths of zero or above what a float allows, "
      "lengths given twice or contradicting ranges, unsupported types and items, malformed attribute values) is a compile error instead of code that misbehaves, whether the macro is built with overflow checks or as in a release build without.",
      ["programs", "configurations"], "every length of every type (zero in every spelling, kind and place), every contradiction of array lengths and ranges, the enumerated types, items, attribute values and primitive enums; 50 reasons to reject a field in every context (any three, thorough four, choices of place, role, byte order and so on), each beside its acceptable twin; all of it judged by the macro built as in a debug and as in a release build",
      "No test asserts that anything is rejected.",
      [S + "parse.rs", S + "common.rs", D + "enums/parse.rs"], PLACE, ACC, ANOTE, [], ["compile error or success of the derive"]),
    P("C15", "No input makes the generated functions panic",
      "from_bytes, into_bytes, and every read function terminate without panic on every byte array and every value, including code points that are no char, ids of no variant and bits outside all fields. "
      "Unpacking any bytes and packing the result reaches a normal form in one step: doing it again gives the same bytes.",
      ["programs", "inputs"], "all declarations of the enumerated spaces, every buffer of the alphabets (all buffers up to one or two bytes), overflow checks on",
      "Tests only use bytes produced by into_bytes.",
      [S + "from_bytes.rs", S + "into_bytes.rs"], MATH_R + MATH_W, LOCK, NOTE),
    P("C16", "Equivalent declarations give the same bytes",
      "Declarations that say the same thing in different ways have identical packing, unpacking and accessors: sequential lengths or pinned ranges in any order, byte or bit lengths, per-field or default endianness, element arrays or single fields, "
      "fill_bytes or a trailing reserve field, implicit or explicit ids, tuple or named variants. lsb0 equals msb0 with the fields in opposite order, reverse equals the same bytes in opposite order, and a whole-byte little endian field equals a big endian one with the value's bytes swapped.",
      ["programs", "inputs"], "every rewriting that applies to every member of the enumerated spaces, all values and buffers of the alphabets; two derived implementations are compared, no layout model involved",
      "No test compares two declarations.",
      [S + "common.rs", S + "parse.rs", S + "from_bytes.rs", S + "into_bytes.rs"], PLACE + MATH_R + MATH_W, TWIN, NOTE),
    P("C17", "Comparing enums with numbers compares ids",
      "With enum comparison enabled, whatever the other features, an enum value equals a number exactly if the number is the value's id (the captured one if it captures). "
      "A primitive enum with partial_eq equals a number exactly if the number is its own; its catch-all variant equals none.",
      ["programs", "inputs"], "all enums of the id spaces with every number of 8 bit ids and an alphabet around all ids above; all primitive enums with all 256 numbers",
      "A few equalities are tested, hardly any inequality.",
      [D + "lib.rs", D + "enums/partial_eq.rs"], [dict(name="generated PartialEq", where=D + "enums/partial_eq.rs, " + D + "lib.rs")], LOCK, NOTE),
    P("C18", "Features add functions and change no behaviour; no_std and safe",
      "For every combination of the std, dyn_fns, hex_fns and comparison features the same declarations are accepted and pack, unpack, read and write identically. "
      "Generated code contains no unsafe code, and compiles in a no_std crate when the std features are off. Wherever an error type exists it prints the numbers or the character it holds, converts into the combined one, and with std is a std error.",
      ["configurations", "programs", "inputs"], "all sixteen feature sets, and the macro built as in a release build, a selection of every kind of declaration in each",
      "The tests are run with one feature set.",
      ["bondrewd/Cargo.toml", "bondrewd-derive/Cargo.toml", D + "lib.rs", D + "enums/partial_eq.rs"], [dict(name="cfg(feature) in the macro", where=D + "lib.rs")], LOCK, NOTE),
    P("C19", "Slice field functions need exactly the bytes of the field",
      "read_slice_ and write_slice_ functions succeed as soon as the slice holds the last byte the field touches, and then read or write exactly what the array functions do; with fewer bytes they return an error holding the given and needed number of bytes, "
      "change nothing and never panic.",
      ["programs", "inputs"], "declarations of the enumerated spaces, every slice length from 0 to two more than the type, pattern buffers, two values per field",
      "Tests call them with full length slices only.",
      [S + "from_bytes.rs", S + "into_bytes.rs"], [dict(name="length checks", where="make_peek_slice_fn, make_set_slice_fn")], LOCK, NOTE, [], ["read_slice_<field>", "write_slice_<field>", "read_slice_variant_id"]),
    P("C20", "Checked slices give the same access after one length check",
      "check_slice and check_slice_mut succeed exactly if the slice holds at least BYTE_SIZE bytes, otherwise return an error with given and needed length; through them every field reads and writes exactly as through the array functions, "
      "touching no other bit and no byte behind the type. "
      "Built with from_unchecked_slice they need only the bytes of the field accessed, and panic when one of those is missing.",
      ["programs", "inputs"], "declarations of the enumerated spaces, every slice length from 0 to two more than needed, pattern buffers, two values per field",
      "One test uses a checked slice.",
      [S + "from_bytes.rs", S + "into_bytes.rs", D + "lib.rs"], [dict(name="checked structures", where="get_check_slice_fn, make_checked_mut_func")], LOCK, NOTE, [], ["check_slice", "check_slice_mut"]),
    P("C21", "enforce_ attributes hold a type to its size",
      "enforce_bits, enforce_bytes and enforce_full_bytes compile exactly if the declared fields add up to that many bits, bytes, or whole bytes (for a variant including the id), alone and combined with each other and with fill_bytes, which is applied after them. "
      "fill_bytes smaller than the fields is a compile error. "
      "On an enum, enforce_bits and enforce_bytes reject every variant that is larger with its id, and payload_bit_length every payload that is.",
      ["programs", "configurations"], "every total of 1 to 19 (thorough 33) bits in several shapes against every enforced number around it and every combination and order of two attributes; variants with several id sizes; right and wrong amounts in every context (any three, thorough four, choices)",
      "No test asserts a rejection, so an enforcement that lets everything pass is not noticed.",
      [S + "common.rs"], [dict(name="StructEnforcement", where=S + "common.rs: ObjectInfo::parse")], ACC, ANOTE, [], ["compile error or success of the derive"]),
    P("C22", "Overlapping fields must be declared",
      "Two fields (or a field and an enum's id) that share a bit are a compile error unless the overlap is declared by redundant or overlapping_bits; fields that share none, in any order and with gaps, are accepted, and the size counts shared bits once. "
      "Empty ranges, and more overlapping_bits than the field has bits, are errors, in debug and release builds alike.",
      ["programs", "configurations"], "every pair of ranges within 6 (thorough 8) bits, in structures and behind an id, three fields, pinned against sequential fields, all traversals; a field over a bit of another one, or of none, in every context (any three, thorough four, choices); judged by the macro built as in a debug and as in a release build",
      "No test asserts a rejection.",
      [S + "common.rs", S + "parse.rs"], [dict(name="overlap check", where=S + "common.rs: parse_fields, FieldInfo::overlapping")], ACC, ANOTE, [], ["compile error or success of the derive"]),
    P("C23", "Enum ids are unique, fit their bits and are assigned as documented",
      "Variants without an id get the lowest unused ones from top to bottom, declared ids (by attribute or discriminant) are kept; duplicate ids, ids or variant counts that do not fit the id bits, id sizes of zero or above 128 bits, and more than one catch-all are compile errors. "
      "Without a marked catch-all the last variant is it.",
      ["programs", "inputs", "configurations"], "every assignment of ids from the menus to up to four (thorough five) variants for ids of 1 to 3 bits, id sizes up to 256 bits, every place of the catch-all; every id read and written for the accepted ones",
      "Tests use two assignments.",
      [S + "common.rs"], [dict(name="id assignment", where=S + "common.rs: ObjectInfo::parse, get_id_type")], ACC + "; lockstep exploration of the accepted enums' ids", ANOTE, [], ["from_bytes", "into_bytes", "id", "compile error or success of the derive"]),
    P("C24", "Signed fields are two's complement numbers of their length",
      "A signed field of n bits packs the low n bits of its value and reads back the number in two's complement: every value from -2^(n-1) to 2^(n-1)-1 survives, the top bit of the field alone decides the sign, and neighbouring fields neither disturb it nor are disturbed, "
      "for every type, length, offset, endianness and traversal, in single fields and arrays.",
      ["programs", "inputs"], "all signed types with every length (128 bit: every third below 60 in the quick tier) at three (thorough eight) offsets, both endiannesses, values and buffers of the alphabets",
      "Tests hold few signed fields, mostly full width.",
      [S + "from_bytes.rs"], [dict(name="sign fix", where=S + "from_bytes.rs: add_sign_fix_quote, add_sign_fix_quote_single_bit")], LOCK, NOTE),
    P("C25", "How a declaration is spelled does not change what it means",
      "The order of attributes, one #[bondrewd] list or several, the accepted words for an endianness, the notation of numbers, paths in front of the types of fields, names of fields and variants (raw identifiers included; accessors drop the r#), visibility, doc comments and attributes of others "
      "leave layout, ids, accessors and values as they are; fields and variants removed by cfg do not count.",
      ["programs", "configurations"], "every permutation of the attributes of fourteen kinds of field, of structures, enums and variants, joined and split; every accepted word and notation; lists with trailing commas, raw strings, line breaks and behind cfg_attr; type paths; eighty names in every kind of field and beside names put together from them, names of types; documentation, lint, cfg attributes and visibilities at every place",
      "Tests write their attributes in one order and use plain names.",
      [S + "parse.rs", S + "common.rs", "bondrewd-derive/src/enums/parse.rs"], [dict(name="attribute parsing", where=S + "parse.rs: FieldAttrBuilder::parse; common.rs: ObjectInfo::parse")], LOCK, NOTE),
    P("C26", "The generated interface works wherever the declaration stands",
      "Everything that is derived (into_bytes and the other trait functions, read_, write_, read_slice_, write_slice_ functions, check_slice and the structures it returns, id(), variant id functions, hex functions, comparison) "
      "can be used from wherever the type itself can be used: from another crate or module when the type is pub or restricted to one, and inside a function or a macro_rules macro; the visibility of the fields does not matter. "
      "Items of the surrounding module that are named like the prelude's (Result, Option, Vec, Ok, Some, ...) do not disturb it.",
      ["programs", "configurations"], "a selection of every kind of structure and enum and a complete space of small primitive enums × eight places: another crate, modules with four visibilities, inside a function, inside a macro, beside items named like the prelude's; every visibility of a type × every visibility of its fields × kinds of field, all functions called from outside",
      "The tests stand in the same module as their declarations and import everything.",
      [S + "into_bytes.rs", S + "from_bytes.rs", D + "lib.rs"], [dict(name="visibility of the generated functions and structures", where=D + "lib.rs: derive_bitfields; " + S + "into_bytes.rs, from_bytes.rs: make_*_fn")], LOCK, NOTE),
]

NOT_APPLICABLE = []


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            a = dict(files=p["files"], mechanism=p["mech"])
            if p["state"]:
                a["state"] = list(p["state"])
            if p["observe"]:
                a["observe_at"] = list(p["observe"])
            a["hook_needed"] = None
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    m = dict(version=1, setup_cmd="python3 mc/check.py --setup",
             checks=[dict(property=p["id"], quick_cmd=f"python3 mc/check.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 mc/check.py {p['id']}",
                          technique=p["technique"], level="model_checking", level_note=p["note"], evidence_file=f"evidence/{p['id']}.json") for p in PROPS],
             not_applicable=NOT_APPLICABLE,
             notes="No hooks are needed in /repo: everything is observed through the public API. Open findings and repaired defects: known-findings.txt.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
