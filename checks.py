"""What each check runs, and its bounds."""
COMMON = [
    'MIR semantics as implemented by /verif/engine; regular expressions are decided by the automata of the regex crate\'s own syntax tree (regex-syntax), validated by native replay with the real crate.',
    'z3 and the engine\'s decision diagrams (cross-checked against z3 on samples) decide satisfiability.',
    'The built-in metadata is the one build.rs generates from /repo\'s assets.',
]
ALLC = 'all calling codes, every national number length any territory of the code declares possible, all digits symbolic'
ALLR = 'all territories that can be a hint, every national number length the territory declares possible, all digits symbolic'
OWN = 'its own hint and others'
CHECKS = {
    'C01': dict(quick=['text::c01', 'text::c01p', 'text::c01n', 'text::c01h', 'text::c01i', 'number::c01z'], thorough=['text::c01l'],
        bounds='texts of up to 3 characters (thorough: 4) out of 40 kinds, alone; up to 2 such characters after 10 beginnings of phone numbers and telephone URIs; digits of a common and of a too short or too long length after "+" and every calling code, and under every hint; every dialling prefix followed by up to 3 digits; texts of up to 5 digits alone and after a plus; what was parsed is formatted, validated and classified (except for texts of 3 and more arbitrary characters)',
        outside='longer texts of arbitrary characters; other characters; memory exhaustion'),
    'C02': dict(quick=['number::c02', 'number::c02n', 'number::c02e', 'number::c02s'],
        bounds=ALLC + ' after "+" and the code, no hint; ' + ALLR + ' under that hint; also lengths 1, 2, 17 and 18; every calling code followed by the last digit of an example number symbolic, one of 8 extension markers and up to two characters out of 11; every hint with the calling code and 0 to 3, 17 or 18 digits',
        outside='other lengths; other mixes of separators and extensions'),
    'C03': dict(quick=['number::c03', 'number::c03h', 'number::c03b'], witness={'c03b': ['ok']},
        bounds=ALLC + '; every hint with two lengths of symbolic national digits, half of them with an extension; Brazilian numbers with trunk prefix and carrier code (three area codes, all other digits symbolic)',
        outside='other lengths; carriers of other countries'),
    'C04': dict(quick=['number::c04', 'number::c04h'], bounds=ALLC + ', no region hint; ' + ALLR + ' after "+" and the calling code, read back under its own hint and three others', outside='other lengths; other pairs of number and hint (C08)'),
    'C05': dict(quick=['number::c05', 'number::c05x', 'number::c05b', 'number::c05w'], 
        bounds=ALLC + '; every calling code with one length and an extension of 1 to 7 symbolic digits; Brazilian numbers with a carrier code; every calling code with one length and three formats, of its own and of other territories, given by the caller', outside='other lengths; other formats of the caller; territories whose formats rewrite digits (Argentina) are exempt in the national form only'),
    'C06': dict(quick=['number::c06', 'number::c06x', 'number::c06h'], bounds=ALLC + '; every calling code with one length and an extension of 1 to 7 symbolic digits, read back without or under a hint; every hint with one length, read back under two hints', outside='other lengths; other pairs of number and hint'),
    'C07': dict(quick=['number::c07', 'number::c07t'], bounds=ALLR, outside='other lengths; numbers whose digits start with the trunk, carrier or dialling prefix or the calling code'),
    'C08': dict(quick=['number::c08', 'number::c08s', 'number::c08w'], thorough=['number::c08all'],
        bounds='all calling codes, two national number lengths each (thorough: all), all digits symbolic, 16 of the territories with distinct international dialling prefix rules as hints for each code, every rule with some code (thorough: all with all); every territory as hint for its own calling code, all possible lengths and four others; five ways to write the plus sign, separators and an extension',
        outside='other pairs of a hint and a calling code that is not its own, where a hint with the same dialling prefix rule is covered; other lengths'),
    'C09': dict(quick=['number::c09', 'number::c09h'], bounds=ALLC + ' after "+" and the code; ' + ALLR + ' under that hint', outside='other lengths'),
    'C10': dict(quick=['text::c10', 'text::c10s', 'text::c10c'], witness={'c10c': ['ok', 'different']},
        bounds='two numbers of every calling code that differ in length, calling code, extension or in any of three digits each; ' + ALLR.replace('every national number length the territory declares possible', 'one national number length each') + ' against the "+" form; two Brazilian numbers with any carrier codes',
        outside='pairs that differ in more than three digit positions, other lengths'),
    'C11': dict(quick=['text::c11', 'text::c11s', 'text::c11t'],
        bounds='all 64-bit values with all 256 leading zero counts; digit strings of 1 to 18 symbolic digits, 17 digits after 2 to 4 zeros, 300 zeros and a digit; texts of up to 3 characters out of 40 kinds',
        outside='other digit strings of more than 18 digits, longer texts with other characters'),
    'C12': dict(quick=['text::c12', 'text::c12w', 'text::c12h'],
        bounds='all calling codes after "+", and all hints with national digits, one national number length each, all digits symbolic (the last six where more than two territories share the code), any of the 30 separators at one position and a fixed one at another; all, every other or two of the characters in one of 14 scripts of decimal digits',
        outside='more separators, other positions and lengths'),
    'C13': dict(quick=['text::c13', 'text::c13h'], bounds='all calling codes after "+", and all hints with national digits, one length each, all digits symbolic, the last 3 to 6 of them any letters, after a separator or not', outside='letters elsewhere or more of them, other lengths'),
    'C14': dict(quick=['text::c14'], bounds='texts of up to 4 characters out of 76 of one to four bytes; texts of 5 to 9 characters, one of which out of 29 of three bytes and the others out of 38 of one byte', outside='longer texts, other characters, texts with an extension in words'),
    'C15': dict(quick=['number::c15'], bounds='all calling codes, one national number length each, all digits symbolic, all distinct international dialling prefixes without alternatives', outside='other lengths; dialling prefixes with alternatives'),
    'C16': dict(quick=['text::c16', 'text::c16c', 'text::c16h'], bounds='26 spellings, extensions of 1 to 7 symbolic digits after numbers of three calling codes; every calling code after "+" and every hint with national digits with one spelling and extension length; digits symbolic (the last six where more than two territories share the code)', outside='other spellings made of the same parts, other lengths'),
    'C17': dict(quick=['text::c17', 'text::c17h'], bounds='all calling codes, one national number each, all digits symbolic (the last six where more than two territories share the code), extensions of 1 to 4 symbolic digits, nine layouts of parameters; every territory as hint and as number, global and local with a phone-context, with a separator', outside='other parameter names and values, domain names as context, other lengths'),
    'C18': dict(quick=['db::c18', 'db::c18d', 'db::c18l', 'db::c18n', 'db::c18e', 'db::c18b', 'db::c18x', 'db::c18m'],
        witness={'c18x': ['ok', 'rejected']},
        bounds='documents of one territory: every attribute present or missing with symbolic values of up to 4 characters; every kind of number with or without each of its elements; up to 2 formats with every attribute and element present or missing, defaults inherited or not; possible lengths of up to 3 items with symbolic digits; calling codes and booleans of up to 5 symbolic characters; a document cut off at every position and followed by any of 20 characters; a document with one character replaced; documents of up to 3 territories with different parts missing; records given to the database with each part missing and with each of 15 kinds of numbers',
        outside='more territories, longer values, references and CDATA sections, more than one damaged place'),
    'C19': dict(quick=['db::c19'],
        bounds='all lists of up to three records with identifiers out of 4 (duplicates included), calling codes out of 4 (2 for the third), main country or not, contents symbolic',
        outside='more records, other identifiers and calling codes'),
    'C20': dict(quick=['db::c20', 'db::c20f', 'db::c20u'], witness={'c20': ['ok'], 'c20f': ['ok'], 'c20u': ['ok', 'rejected']},
        bounds='a database that contradicts the built-in one (four territories, three calling codes): numbers of 2 to 8 symbolic digits in five notations; classification and all four forms of numbers of 4 to 6 symbolic digits with and without an extension; unknown hints and calling codes with 3 to 8 symbolic digits; built-in numbers looked at through it',
        outside='other databases, other lengths'),
    'C21': dict(quick=['text::c21', 'text::c21p'], bounds=ALLR + ', after the calling code alone; all calling codes with one national number length each, all digits symbolic, after "+" and "00"', outside='other lengths; digits that are also valid with the calling code in front, start with a dialling prefix or belong to another territory'),
    'C22': dict(quick=['number::c22', 'number::c22x'], bounds=ALLR + ', after "+" and the calling code; every region with one length and an extension of 1 to 7 symbolic digits', outside='other lengths; numbers and territories that the statement leaves out'),
    'C23': dict(quick=['db::c23'], witness={'c23': ['ok', 'rejected']}, bounds='all texts of up to 3 characters out of 60 (ASCII letters, some digits and other characters)', outside='longer texts and other characters'),
    'C24': dict(quick=['number::c24'], bounds=ALLC + ' after "+" and the code', outside='other lengths'),
    'C25': dict(quick=['number::c25', 'number::c25b', 'number::c25n'],
        bounds='every calling code with some lengths, half of them with an extension of 1 to 7 symbolic digits; Brazilian numbers with a carrier code; national numbers with any value of bits 0-7, 16-23 and 40-47 and any zero count; a self-describing format that the harness implements',
        outside='other lengths and values; formats that are not self-describing'),
    'C26': dict(quick=['number::c26', 'number::c26x', 'number::c26b'], bounds=ALLC + '; every calling code with some lengths and an extension of 1 to 7 symbolic digits; Brazilian numbers with a carrier code', outside='other lengths; other territories with carrier codes'),
    'C27': dict(quick=['number::c27', 'number::c27l'], bounds='all texts of 2 to 18 digits, with and without a plus; every calling code followed by one digit and by 12 symbolic digits and 20 others', outside='longer texts, separators'),
}
