"""property id -> (module, function, level, technique, note)"""
REG = {
    'C01': ('resources', 'c01', 'other', 'typestate analysis of the temporary file over all normal and exceptional paths (abstract interpretation of the syntax tree)', ''),
    'C02': ('resources', 'c02', 'other', 'typestate analysis of file, mapping, descriptor and process handles over all normal and exceptional paths', ''),
    'C03': ('contract', 'c03', 'other', 'abstract interpretation of the entry points under a finite partition of the environment answers (file kind, HTTP status, detected type)', ''),
    'C04': ('service', 'c04', 'other', 'abstract interpretation of the service calls under a finite partition of the outcome of each item, plus a symbolic length analysis', ''),
    'C06': ('history', 'c06', 'other', 'abstract interpretation of sequences of calls with carried-over process state (taint of earlier arguments), and an effect analysis for objects that outlive a call', ''),
    'C07': ('history', 'c07', 'other', 'alias-aware mutation analysis: containers of the caller are tracked through all calls', ''),
    'C10': ('effects', 'c10', 'other', 'interprocedural effect analysis per entry point with a whitelist of resources', ''),
    'C12': ('pipeline', 'c12', 'other', 'abstract interpretation with symbolic terms: rendered fields are compared with terms over the item attributes; attribute-presence analysis of every item constructed', ''),
    'C15': ('lines', 'c15', 'other', 'abstract interpretation over word terms: every line of up to three (thorough: four) recognised items, with opaque text, is propagated symbolically through the line parser and the resulting items are compared with the line', ''),
    'C19': ('lines', 'c19', 'other', 'abstract interpretation over word terms: every line of up to three (thorough: four) recognised items, with opaque text, is propagated symbolically through the line parser and the resulting items are compared with the line', ''),
    'C22': ('lines', 'c22', 'other', 'abstract interpretation over word terms: every line of up to three (thorough: four) recognised items, with opaque text, is propagated symbolically through the line parser and the resulting items are compared with the line', ''),
    'C23': ('lines', 'c23', 'other', 'abstract interpretation over word terms: every line of up to three (thorough: four) recognised items, with opaque text, is propagated symbolically through the line parser and the resulting items are compared with the line', ''),
    'C13': ('pipeline', 'c13', 'other', 'abstract interpretation of every entry point with symbolic terms: the line parser is replaced by its contract, the raw text of every reference is compared with the term of its line', ''),
    'C14': ('pipeline', 'c14', 'other', 'abstract interpretation of every entry point with symbolic terms: the line parser is replaced by its contract, option values are traced from the call to their uses for every combination of given and omitted options', ''),

    'C11': ('lines', 'c11', 'other', 'tag vocabulary collected from all string terms the recognisers can build (abstract interpretation), then word-term propagation of every tag and every pair of tags through the line parser', ''),
    'C05': ('enrich', 'c05', 'other', 'exception-escape analysis of the PDF inspection over all paths, and abstract interpretation of the merge over word terms for every small number of references and targets', ''),
    'C08': ('determinism', 'c08', 'other', 'taint analysis: sources of nondeterminism (set order, identity, hash, clock, random, locale, environment) traced to results, patterns and decisions', ''),
    'C09': ('asdata', 'c09', 'other', 'taint analysis: input text traced to every pattern, template, evaluated text and command line, with escaping as the only sanitiser', ''),
    'C17': ('crash', 'c17', 'other', 'exception-escape analysis with provenance of absent matches, absent groups, unset variables and unconvertible numbers; word-term propagation of lines of recognised items', ''),
    'C16': ('positions', 'c16', 'other', 'abstract interpretation over word terms: lines of recognised items between opaque texts are propagated through all recognisers to the tagged line, positions kept as vectors over the word classes; the text of the tagged line is compared with the line', ''),
    'C18': ('progress', 'c18', 'other', 'path analysis of every conditional loop (control-flow paths with correlated tests, dependence of the exit condition, idempotence of the path), and word-term propagation of lines through the parser loops', ''),
    'C20': ('kbuse', 'c20', 'other', 'abstract interpretation of one call per kind and shape of override with taint labels on every knowledge base, from its source through the loaders to the recogniser that consults it', ''),
    'C21': ('numeration', 'c21', 'other', 'abstract interpretation of the journal tagger with every numeration pattern matching in every possible combination of groups (from the parsed pattern), and of sequences of journals and ibids over word terms', ''),
}
