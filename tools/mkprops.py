"""Writes /verif/properties.jsonl (the property texts live here so that they are easy to edit)."""
import json, os
H = 'spylls/hunspell/'
RA, RD, RF = H + 'readers/aff.py', H + 'readers/dic.py', H + 'readers/file_reader.py'
DA, DD, DI = H + 'data/aff.py', H + 'data/dic.py', H + 'dictionary.py'
LK, SG, CP, NG, PH, PM, SM, TR = [H + 'algo/' + n + '.py' for n in (
    'lookup', 'suggest', 'capitalization', 'ngram_suggest', 'phonet_suggest', 'permutations', 'string_metrics', 'trie')]

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        anchors['observe_at'] = observe if isinstance(observe, list) else [observe]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': anchors})


prop('L01', 'Loading keeps every directive and dictionary entry as written',
     'After loading a well-formed pair of .aff/.dic files, the loaded dictionary exposes exactly the declared settings, '
     'affix rules, tables and flags, and exactly one word entry per dictionary line, in file order, with the stem, flag set '
     'and data tags written there. Directives that are not declared have their documented default values, and lines that are '
     'not directives change nothing.',
     ['inputs', 'configurations'],
     'all well-formed .aff/.dic pairs: any combination and order of directives, any tables, stems with spaces or escaped '
     'slashes, comments, trailing text, data tags',
     'Tests load about a hundred fixed fixtures and never look at what was loaded, only at a few answers produced from it.',
     [RA, RD, DA, DD], [('directive reading', RA + ' read_directive/read_value/make_affix'),
                        ('entry reading', RD + ' read_dic/parse_data')],
     'Dictionary.aff / Dictionary.dic attributes after from_files')

prop('L02', 'Answers do not depend on container, encoding or line format',
     'Storing the same dictionary content as two files, as a zip archive (whatever the member names) or in a system dictionary folder, in any '
     'encoding able to represent it and declared by SET, with LF or CRLF line ends, with or without a byte order mark, '
     'blank lines, indentation and comment lines, gives a dictionary with the same answers to every lookup and suggest call.',
     ['inputs', 'configurations'],
     'all dictionaries, all containers x supported encodings x line formats, all words',
     'Each fixture exists in exactly one encoding and one container; zip and system loading have no test at all.',
     [DI, RF, RA, RD], [('containers', DI + ' from_files/from_zip/from_system'),
                        ('line readers and encoding switch', RF)],
     'Dictionary.lookup / Dictionary.suggest on every stored variant')

prop('L03', 'Flag notation, flag aliases and data aliases are interchangeable',
     'Writing the flags of the same dictionary in short, long, numeric or UTF-8 notation, with or without flag-set aliases, '
     'replacing data tags by data aliases, or using the outdated directive names PSEUDOROOT and COMPOUNDLAST does not change any '
     'answer of lookup or suggest.',
     ['inputs', 'configurations'],
     'all dictionaries, all consistent renamings of flags into the four notations, with and without AF/AM, all words',
     'Every fixture uses one notation; equivalence between notations is never exercised.',
     [RA, RD, DA], [('flag parsing', RA + ' Context.parse_flag/parse_flags'), ('AF/AM', RA + ' read_value; ' + RD + ' parse_data'),
                    ('flags in compound rules', DA + ' CompoundRule')],
     'Dictionary.lookup / Dictionary.suggest on every notation')

prop('L04', 'A dictionary is read from exactly the files that were asked for',
     'Loading by path reads <path>.aff and <path>.dic and nothing else, except that the names of the bundled dictionaries mean these if there is no .aff '
     'file of that name in the working directory; loading from an archive reads its .aff and its .dic member. Loading by name from the system folders '
     'takes the first folder of the list that has <name>.aff, and raises LookupError if none has; whenever one of the files is missing, '
     'loading fails with an exception.',
     ['inputs', 'configurations'],
     'all trees of folders with dictionaries of the same and similar names, incomplete dictionaries, all orders of search, all archives with one dictionary',
     'Tests load fixtures by absolute path only.',
     [DI, RF], [('search', DI + ' from_files/from_zip/from_system')], 'loaded words and settings, exceptions')

prop('L05', 'The order of tables and entries, and repeated entries, do not matter',
     'Listing the entries, their flags, the affix tables and their rows, the compound rules and patterns, the break patterns or the conversion rows '
     '(as long as no two of them have the same text or flag) in another order, or an entry twice, changes neither the verdict nor the set of analyses '
     'of any word. If entries neither share a spelling nor carry ph: tags, another order does not change the suggestions and their order either.',
     ['inputs', 'configurations'],
     'all dictionaries, all permutations of their tables, all words',
     'Every fixture has one order, in which entries and rules are often sorted.',
     [RA, RD, DA, DD, LK, NG, PH, TR], [('indexes', DD + ' Dic; ' + DA + ' Aff; ' + TR), ('homonyms', LK + ' affix_forms'),
                                        ('ranking', NG + '; ' + PH)],
     'Dictionary.lookup / suggest / lookuper.good_forms on both dictionaries')

prop('D01', 'Entries are found by their spelling and ignoring case, with their flags',
     'Searching the word list for a spelling gives exactly the entries with that stem, in the order of the file; ignoring case, exactly those that '
     'have the searched text as a lowercase form. A spelling has a flag if at least one of its entries has it, has it "for all" if there are entries and '
     'each has it, and a spelling without entries has none.',
     ['inputs', 'configurations'],
     'all dictionaries (several entries of one spelling, capitals, sharp s, Turkic i, ignored letters), all texts, all flags',
     'The word list is never asked directly by tests, and most fixtures have one entry of each spelling.',
     [DD, RD, CP], [('indexes', DD + ' Dic'), ('lowercase forms', CP)], 'Dictionary.dic')

prop('A01', 'Every word derivable by the affix rules is accepted',
     'Every form obtained from a dictionary entry by applying a suffix and/or prefix it is flagged for (a second suffix, or with '
     'COMPLEXPREFIXES a second prefix, if the first one is flagged for it), respecting strip, condition and cross-product '
     'settings and no restricting flag, is accepted by lookup. '
     'Multiple entries with the same stem each contribute their own forms.',
     ['inputs', 'configurations'],
     'all affix tables and dictionaries, all derivable forms (generated forwards from the entries)',
     'Fixtures list a few dozen correct words; the space of affix tables, strip/condition interplay and double affixes is not covered.',
     [LK, DA, TR, RA], [('affix analysis', LK + ' produce_affix_forms/desuffix/deprefix'), ('compatibility', LK + ' is_good_form'),
                        ('conditions', DA + ' Prefix/Suffix'), ('affix index', TR)],
     'Dictionary.lookup')

prop('A02', 'Nothing outside the affix rules is accepted',
     'In a dictionary without compounding, a word is accepted only if it (or one of its break parts, or its documented case '
     'variants) is a dictionary entry or can be derived from one by at most two suffixes and one prefix (two with '
     'COMPLEXPREFIXES), each flagged for by the entry or by the affix it is attached to, with strip and condition satisfied.',
     ['inputs', 'configurations'],
     'all affix tables and dictionaries, all words, in particular near misses of derivable forms',
     'Fixtures list a few wrong words each; over-acceptance for other inputs is invisible.',
     [LK, DA, TR], [('affix analysis', LK + ' produce_affix_forms/desuffix/deprefix'), ('compatibility', LK + ' is_good_form')],
     'Dictionary.lookup')

prop('A03', 'Affix restrictions NEEDAFFIX, CIRCUMFIX, cross product, ONLYINCOMPOUND hold',
     'An entry flagged NEEDAFFIX is not accepted bare and an affix flagged so is not accepted as the only affix; a CIRCUMFIX prefix and suffix '
     'appear only together; a prefix and a suffix combine only if both allow cross product; a form flagged '
     'ONLYINCOMPOUND is never accepted on its own. Forms not concerned by these restrictions stay accepted.',
     ['inputs', 'configurations'],
     'all dictionaries assigning these flags to stems and affixes in any combination, all derivable forms and their base words',
     'One fixture per flag with a couple of words; flags on affixes, on homonyms and in combination are untested.',
     [LK], [('restriction flags', LK + ' is_good_form/produce_affix_forms')], 'Dictionary.lookup')

prop('A04', 'Adding to a dictionary never takes accepted words away',
     'Adding an entry that is not flagged as forbidden, forbidden in compounds or forcing upper case keeps every accepted word accepted (replacements '
     'that check compounds aside), and each word it makes acceptable has an analysis that rests on the new entry. '
     'Adding an affix table to which no entry and no affix refers changes no verdict and no suggestion.',
     ['inputs', 'configurations'],
     'all dictionaries without CHECKCOMPOUNDREP, all entries (also with the spelling of others, recased), all unused affix tables, all words',
     'Tests never compare two dictionaries.',
     [LK, DD, DA], [('homonyms and restrictions', LK + ' affix_forms/compound_forms/is_good_form'), ('indexes', DD + ' Dic')],
     'Dictionary.lookup / suggest / lookuper.good_forms before and after the addition')

prop('C01', 'Accepted capitalizations are exactly the documented ones',
     'A word is accepted as spelled in the dictionary, with initial capital, and in all capitals (also if the entry has mixed '
     'case), while lower-casing an entry that has capitals and any other mixture of cases is rejected. '
     'Entries flagged KEEPCASE are accepted only with the capitalization they have in the dictionary.',
     ['inputs', 'configurations'],
     'all entries with any capitalization, with affixes or not, all case patterns of their forms',
     'Tests cover a handful of words per case type, in ASCII; combinations with affixes, homonyms and non-ASCII letters are not covered.',
     [CP, LK, DD, RD], [('case variants', CP + ' Casing'), ('KEEPCASE and all-caps search', LK + ' affix_forms/is_good_form'),
                        ('lowercase index', DD + ' Dic; ' + RD)], 'Dictionary.lookup')

prop('C02', 'German sharp s and Turkic dotted/dotless i are cased correctly',
     'With CHECKSHARPS an entry with "ß" is accepted in all capitals both with "SS" and "ß" (only with "SS" if flagged KEEPCASE) and '
     'never with a wrong number of s; for Turkish, Azerbaijani and Crimean Tatar, i/İ and ı/I are the only case pairs of these '
     'letters in both lookup and suggestions.',
     ['inputs', 'configurations'],
     'all entries over alphabets with ß/ss/i/ı/İ/I, all case patterns, with and without affixes',
     'Two small fixtures; several ß in a word, ß next to s, affixes containing ß/i and suggestions are not covered.',
     [CP, LK], [('casing classes', CP + ' GermanCasing/TurkicCasing'), ('KEEPCASE with ß', LK + ' good_forms/is_good_form')],
     'Dictionary.lookup / Dictionary.suggest')

prop('F01', 'Forbidden words are never accepted',
     'A word whose dictionary entries are all flagged FORBIDDENWORD is rejected as such, capitalized or in capitals, as a part of a '
     'broken or compound word, and even if it could be derived by affixes or compounding; a stem having a forbidden entry takes no '
     'affixes and joins no compounds. Words unrelated to forbidden entries are still accepted.',
     ['inputs', 'configurations'],
     'all dictionaries with forbidden entries (unique or homonyms, also derived forms and compounds), all spellings involving them',
     'A few fixtures with fixed spellings; case variants, breaks and compounds with forbidden parts are not covered.',
     [LK, DD], [('forbidden checks', LK + ' __call__/affix_forms/compound_forms/compounds_by_rules'), ('homonyms', DD + ' Dic.has_flag')],
     'Dictionary.lookup')

prop('M01', 'Flag-based compounds: exactly the permitted part sequences are accepted',
     'A compound is accepted if and only if it can be split into two or more words, each at least COMPOUNDMIN characters long and at most COMPOUNDWORDMAX of '
     'them, the first flagged COMPOUNDFLAG or COMPOUNDBEGIN, the inner ones COMPOUNDFLAG or COMPOUNDMIDDLE, the last '
     'one COMPOUNDFLAG or COMPOUNDEND (on the entry or on its affix).',
     ['inputs', 'configurations'],
     'all dictionaries with compound flags, all minimum lengths and maximum counts, all concatenations of their words',
     'Fixtures test two or three parts for fixed words; limits and ambiguous splits are not explored.',
     [LK], [('splitting', LK + ' compound_forms/compounds_by_flags'), ('position flags', LK + ' is_good_form')], 'Dictionary.lookup')

prop('M02', 'Affixes inside compounds only where permitted',
     'In a compound, prefixes are accepted on the first word and suffixes on the last word unless the affix is flagged COMPOUNDFORBIDFLAG; elsewhere '
     'only affixes flagged COMPOUNDPERMITFLAG are accepted; the flags of an affix can give its word the right to be at that place. '
     'A non-last word whose entry is flagged COMPOUNDFORBIDFLAG makes the compound wrong.',
     ['inputs', 'configurations'],
     'all dictionaries with affixes and compound flags, all compounds of base and affixed forms in every position',
     'Two or three fixtures, one affix each.',
     [LK], [('affixes of compound parts', LK + ' compounds_by_flags/produce_affix_forms/is_bad_compound')], 'Dictionary.lookup')

prop('M03', 'Compound restrictions reject exactly the compounds they describe',
     'A compound is rejected if a split violates CHECKCOMPOUNDDUP (last two words equal), CHECKCOMPOUNDCASE, CHECKCOMPOUNDTRIPLE, '
     'CHECKCOMPOUNDREP, CHECKCOMPOUNDPATTERN, FORCEUCASE or if two neighbours are a dictionary phrase, unless another split is '
     'clean; other compounds stay accepted. SIMPLIFIEDTRIPLE additionally accepts a compound whose tripled letter was '
     'simplified.',
     ['inputs', 'configurations'],
     'all compound dictionaries with any subset of the restrictions, all compounds over letters that trigger them',
     'One fixture per restriction, always alone, with hand-picked words.',
     [LK, DA], [('compound filters', LK + ' is_bad_compound'), ('patterns', DA + ' CompoundPattern'), ('triples', LK + ' compounds_by_flags')],
     'Dictionary.lookup')

prop('M04', 'Rule-based compounds match the COMPOUNDRULE patterns exactly',
     'In a dictionary with COMPOUNDRULE, a word is accepted as rule compound if and only if it is a concatenation of two or more dictionary entries (each '
     'at least COMPOUNDMIN long, at most COMPOUNDWORDMAX of them) for which one flag per entry can be chosen so that the flag sequence matches one of the '
     'rules, with * as any number and ? as optional.',
     ['inputs', 'configurations'],
     'all rule sets (all flag notations, several flags per entry, homonyms), all concatenations of entries',
     'Nine fixtures with fixed rules; partial matching, several flags per word and rule interplay are not explored.',
     [LK, DA], [('rule matching', DA + ' CompoundRule'), ('rule splitting', LK + ' compounds_by_rules')], 'Dictionary.lookup')

prop('B01', 'Break patterns split words exactly at the declared places',
     'A word that is not accepted as a whole is accepted if and only if some choice of break points (patterns inside the word, "^" patterns at its '
     'start, "$" patterns at its end; by default dashes) leaves only accepted parts, also several breaks (at least up to nine), with one-letter parts, and with '
     'parts that contain a break pattern themselves. An empty or disabled break table splits nothing.',
     ['inputs', 'configurations'],
     'all BREAK tables, all words composed of accepted and wrong parts with break strings between, before and after them',
     'Three fixtures with two-part words.',
     [LK, DA], [('breaking', LK + ' __call__/break_word'), ('patterns', DA + ' BreakPattern')], 'Dictionary.lookup')

prop('I01', 'Input conversion, ignored characters and numbers are handled literally',
     'A word is judged as if ICONV had been applied to it (at each place the longest matching entry, literally, "_" anchoring to word start or end, no '
     'repeated conversion) and all IGNORE characters had been removed from the word, the entries and the affixes. '
     'Words consisting of digits, optionally with one inner decimal point, are always accepted.',
     ['inputs', 'configurations'],
     'all conversion tables including overlapping and regex-special patterns, all IGNORE sets, all words and their decorated variants',
     'Fixtures contain one or two conversions without overlaps.',
     [LK, DA, RA, RD], [('conversion table', DA + ' ConvTable'), ('preprocessing', LK + ' __call__'), ('ignored chars at loading', RA + '; ' + RD)],
     'Dictionary.lookup')

prop('G01', 'Reported analyses are genuine and agree with the verdict',
     'Every analysis reported for a word spells that word (in one of its case variants) from a stored entry and declared affixes '
     'that are flagged for each other, every compound analysis is a list of such parts, and the set of reported analyses is '
     'the complete set of derivations; a word without break points is accepted if and only if at least one analysis is reported. '
     'Analyses may be restricted to the exact capitalization, to entries that may be suggested, to single words or to compounds, and are '
     'then exactly those of all the analyses that qualify.',
     ['inputs', 'configurations'],
     'all dictionaries, all words, all restrictions, all reported analyses including homonyms and alternative derivations',
     'Analyses are never inspected by tests; only the boolean is.',
     [LK], [('analyses', LK + ' good_forms/affix_forms/compound_forms')], 'Dictionary.lookuper.good_forms and Dictionary.lookup')

prop('G02', 'Printed analyses, entries and suggestions show what they consist of',
     'The printed form of an analysis shows the analysed text and, if there are affixes, the prefixes, the stem and the suffixes in the order they have '
     'in the word, each affix with its text, flag, cross product, flags, strip and condition; that of a compound shows all its parts in order. '
     'The printed form of an entry shows its stem and flags, that of a suggestion its kind and text, and printing never fails.',
     ['inputs', 'configurations'],
     'all dictionaries, all words with analyses (up to two prefixes and two suffixes, compounds), all entries, all suggestions',
     'No test prints anything; the documented output is not compared with the program.',
     [LK, DA, DD, SG], [('analyses', LK + ' AffixForm/CompoundForm'), ('affixes', DA + ' Prefix/Suffix'), ('entries', DD + ' Word')],
     'str() of what Dictionary.lookuper, Dictionary.suggester and Dictionary.dic return')

prop('P01', 'All ways of asking a dictionary agree',
     'The verdict and the suggestions of a dictionary are those of its lookup and suggestion components asked directly, in the same order and with '
     'the same texts as the labelled suggestions. A dictionary object made again from the loaded affix data and word list answers the same, and '
     'the analyses of a word are those as a single word together with those as a compound.',
     ['inputs', 'configurations'],
     'all dictionaries, all words',
     'Tests ask in one way each: verdicts through the dictionary, suggestions through the dictionary; the components are not compared with it.',
     [DI, LK, SG], [('entry points', DI + ' Dictionary'), ('components', LK + ' Lookup, ' + SG + ' Suggest')],
     'Dictionary.lookup, Dictionary.suggest, Dictionary.lookuper, Dictionary.suggester')

prop('S01', 'Correction suggestions are valid words and genuine corrections',
     'Every suggestion that is not a similarity (n-gram or phonetic) guess is a word, or a space/dash separated sequence of words, '
     'that the dictionary accepts in that spelling before output conversion, and it results from the misspelled word or one of its case variants by the '
     'single correction it is labelled with.',
     ['inputs', 'configurations'],
     'all dictionaries, all misspelled words, all suggestions',
     'Fixtures compare fixed suggestion lists for about 40 dictionaries.',
     [SG, PM, LK], [('edit suggestions', SG + ' suggestions/edit_suggestions/edits'), ('edits', PM)],
     'Dictionary.suggester.suggestions, Dictionary.lookup')

prop('S02', 'Forbidden, NOSUGGEST and compound-only words are never suggested',
     'No suggestion is a forbidden word, and no suggested word or part needs an entry flagged FORBIDDENWORD or NOSUGGEST, nor an '
     'entry flagged ONLYINCOMPOUND outside of a compound, in any capitalization and by any way of producing suggestions. '
     'NOSUGGEST words are nevertheless accepted by lookup.',
     ['inputs', 'configurations'],
     'all dictionaries flagging entries this way, all misspellings near those entries',
     'Two fixtures, one word each.',
     [SG, LK, NG], [('allowed suggestions', SG + ' suggestions/__init__'), ('NOSUGGEST', LK + ' is_good_form')], 'Dictionary.suggest')

prop('S03', 'Suggestions are unique and limited',
     'One suggest call never returns the same string twice, returns at most 15 simple and MAXCPDSUGS compound corrections per case '
     'variant of the word, at most MAXNGRAMSUGS n-gram guesses and at most two phonetic guesses; MAXNGRAMSUGS 0 and MAXCPDSUGS 0 '
     'switch the respective suggestions off.',
     ['inputs', 'configurations'],
     'all dictionaries (also dense ones where every edit is a word), all limits, all words',
     'Fixture lists are short; limits and duplicates are hardly reached.',
     [SG], [('limits and handled suggestions', SG + ' suggestions/edit_suggestions')], 'Dictionary.suggest / suggester.suggestions')

prop('S04', 'Words one typical mistake away are suggested',
     'If the misspelled word comes from an accepted, suggestable word by one typical mistake (swapped neighbours, two letters at distance two or three '
     'swapped, neighbouring key, extra letter, missing or wrong letter listed in TRY, letter moved by two or three places, doubled '
     'letter pair, missing space, accidental case), the word is suggested unless a limit or a decisive better suggestion comes first.',
     ['inputs', 'configurations'],
     'all dictionaries, all accepted words, all single mistakes at all positions',
     'Fixtures contain one or two misspellings for each kind of edit.',
     [SG, PM], [('edits', PM), ('filtering', SG + ' edit_suggestions')], 'Dictionary.suggest')

prop('S05', 'Suggestions come in the documented order and stop where documented',
     'Corrections are returned in the documented order of kinds (case, upper case, replacements, phrase, similar letters, swaps, '
     'keyboard, extra, missing, moved, wrong letter, doubled pair, split), simple words before compounds for each case variant; a phrase '
     'that is a dictionary entry ends the search, replacements and similar letters suppress compound suggestions, and similarity guesses are made only if no decisive '
     'correction was found.',
     ['inputs', 'configurations'],
     'all dictionaries, all misspelled words with suggestions of several kinds',
     'Tests compare order only for the few multi-suggestion fixtures.',
     [SG, PM], [('order and stop conditions', SG + ' suggestions/edits')], 'Dictionary.suggester.suggestions')

prop('S06', 'Suggestions follow the case of the misspelling and output conversion',
     'A suggestion for a capitalized or all-capitals misspelling is capitalized accordingly unless the word is flagged KEEPCASE or '
     'that spelling is forbidden, a mixed-case misspelling keeps a capital after the split, and OCONV is applied to every suggested correction or guess just before it is '
     'returned, so that equal results appear once.',
     ['inputs', 'configurations'],
     'all dictionaries, misspellings in all case patterns, all OCONV tables',
     'Few fixtures have capitalized misspellings; OCONV has two.',
     [SG, CP, DA], [('case coercion', CP + ' coerce; ' + SG + ' handle_found'), ('conversion', DA + ' ConvTable')], 'Dictionary.suggest')

prop('S07', 'REP, MAP and ph: tables drive suggestions exactly as declared',
     'Every literal replacement declared by REP or by a ph: tag (plain, with *, or with ->; "^"/"$" anchored; "_" as space) is tried at every place '
     'where it applies, and every letter declared similar to others by MAP is exchanged at its next place in the word, then again further right. '
     'All this happens in table order, and each result that is a valid word is suggested.',
     ['inputs', 'configurations'],
     'all REP/MAP/ph: tables including anchors, overlaps, multi-letter groups and regex-special characters, all words containing the patterns',
     'A handful of fixtures with fixed tables.',
     [PM, DA, RD, SG], [('replacements', PM + ' replchars/mapchars'), ('patterns', DA + ' RepPattern'), ('ph: tags', RD + ' read_dic')],
     'Dictionary.suggest')

prop('S08', 'N-gram guesses are the best-scoring dictionary forms',
     'When no decisive correction exists, the n-gram guesses are exactly the dictionary forms that the documented scoring selects: ranked by similarity, above the '
     'threshold, adjusted by MAXDIFF and ONLYMAXDIFF, at most MAXNGRAMSUGS, without forms that contain an earlier suggestion.',
     ['inputs', 'configurations'],
     'all dictionaries (also with hundreds of candidates, affixes and ph: spellings), all settings, all severely misspelled words',
     'Fixtures contain a dozen n-gram suggestions in tiny dictionaries.',
     [NG, SM, SG], [('scoring', NG), ('metrics', SM), ('use', SG + ' ngram_suggestions')], 'Dictionary.suggest')

prop('S09', 'Phonetic guesses follow the PHONE table',
     'With a PHONE table, phonetic guesses are the dictionary stems whose code (longest-prefix-free, first matching rule per position, anchors and '
     'look-ahead honoured) is most similar to the code of the misspelling, best first, at most two; without the table there are none.',
     ['inputs', 'configurations'],
     'all PHONE tables in the supported syntax, all dictionaries and misspellings',
     'One fixture with two suggestions.',
     [PH, DA, SG], [('phonetic code', PH + ' metaphone; ' + DA + ' PhonetTable'), ('ranking', PH + ' phonet_suggest')], 'Dictionary.suggest')

prop('S10', 'In a dashed word, the misspelled part is corrected in place',
     'For a word with dashes and no better dashed suggestion, the suggestions include exactly the whole words made by replacing its first misspelled part '
     'with that part\'s own suggestions whenever the result is an accepted word; other parts are left as they are.',
     ['inputs', 'configurations'],
     'all dictionaries and break tables, all dashed words with one or more misspelled parts at any position',
     'One fixture.',
     [SG], [('dashes', SG + ' suggestions')], 'Dictionary.suggest')

prop('T01', 'Lookup and suggest answer for every string without failing',
     'For every loadable dictionary and every Unicode string, lookup returns True or False and suggest yields a finite sequence of '
     'strings; neither raises, and the amount of work is bounded.',
     ['inputs', 'configurations'],
     'all strings (empty, one letter, separators only, control, combining, title-case, unpaired surrogates, digits, very long), all dictionaries',
     'Tests only pass well-formed words.',
     [LK, SG, CP, DA, NG, PH], [('whole lookup and suggest path', LK + ', ' + SG)], 'Dictionary.lookup / Dictionary.suggest')

prop('T02', 'Malformed dictionaries are refused when loaded, or work',
     'Loading ends for every content of the dictionary files: it returns a dictionary or raises an ordinary exception, without exhausting stack or memory, '
     'and the work is bounded by the size of the files. What was returned answers lookup and suggest for every short word without raising and with bounded work.',
     ['inputs', 'configurations', 'fault_sequences'],
     'all contents of the two files: cut, damaged and repeated lines, wrong counts and tables, circular aliases, degenerate patterns and limits, invalid bytes, random text; all short words',
     'All fixtures are well-formed.',
     [RA, RD, RF, DA, DD, LK, SG], [('parsing', RA + '; ' + RD), ('patterns made when loading', DA)], 'Dictionary.from_files / from_zip, then lookup / suggest')

prop('T03', 'Unrelated entries and affix rules cost nothing',
     'The work of a lookup, an analysis and a suggestion without similarity guesses does not grow when entries and affix rules are added that have no part '
     'in the word. The work of loading, and that of similarity guesses, grows no faster than in proportion to the number of entries added.',
     ['inputs', 'configurations'],
     'all dictionaries, all words asked, any number of added entries (also of one spelling, or beginning like the word) and affix rules (also sharing letters with the edge of the word)',
     'Tests use small dictionaries, and look at answers only.',
     [DD, LK, SG, 'spylls/hunspell/algo/trie.py', RD], [('search for entries', DD + ' Dic'), ('search for affixes', 'spylls/hunspell/algo/trie.py')],
     'lines, jumps and generator steps executed by Dictionary.from_files, lookup, suggest, lookuper.good_forms')

prop('H01', 'Answers do not depend on what was asked before or loaded besides',
     'Any sequence of lookups, suggestions and analyses on a dictionary, with other dictionaries loaded and used in between, leaves every later answer '
     'identical to the answer of a freshly loaded dictionary, and changes neither the loaded data nor the source files.',
     ['histories', 'inputs', 'configurations'],
     'all call histories (repeated, abandoned and failing-to-suggest calls included), all sets of dictionaries in one process',
     'Every test uses a fresh dictionary and a few calls.',
     [LK, SG, DA, DD, RD], [('shared state', 'default arguments, class attributes and tables of ' + ', '.join([LK, SG, DA, DD]))],
     'Dictionary.lookup / suggest / lookuper.good_forms, content of Dictionary.aff and Dictionary.dic')

prop('H02', 'Answers are the same in every process and for every hash seed',
     'Loading the same files in different processes, with different hash seeds, locales, optimization levels and working directories, gives '
     'identical loaded data and identical sequences of answers to the same lookups and suggestions, including the order of suggestions.',
     ['schedules', 'inputs', 'configurations'],
     'all hash seeds, interpreter and locale settings, all dictionaries (aliases, many flags, ties in scores), all words',
     'The test run uses one process, one hash seed and one locale.',
     [RA, RD, NG, SG, DA], [('set iteration', RA + ' AF/AM; ' + NG + ' forms_for; ' + SG)], 'answers of separate interpreter processes')

prop('H03', 'Suggestions are produced lazily and independently of interleaving',
     'Iterating several suggestion generators in any interleaving, taking only some suggestions, abandoning generators, or using one '
     'dictionary from several threads yields for each call the same sequence (prefix) as running it alone, and the first suggestions '
     'are available without computing the remaining ones.',
     ['schedules', 'histories', 'inputs'],
     'all interleavings of generators and threads on one dictionary, all prefixes',
     'Tests exhaust each generator at once, in one thread.',
     [SG, DI, LK], [('generators', SG + ' __call__/suggestions/edit_suggestions; ' + DI + ' suggest')], 'Dictionary.suggest generators')

prop('H04', 'An interrupted call does not affect later answers',
     'If a load, lookup, analysis or suggestion is ended by an exception raised at any point of its execution (interruption by the user, time limit, '
     'lack of memory), the dictionary and all dictionaries loaded later answer every later question as if the call had not been made.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'all points of execution of all calls, all kinds of exceptions, all later questions',
     'No test interrupts a call.',
     [LK, SG, DI, DD, DA], [('calls', LK + ' __call__/good_forms; ' + SG + ' suggestions; ' + DI + ' from_files'), ('indexes', DD + ' Dic; ' + DA + ' Aff')],
     'answers after exceptions injected at executed lines')

prop('R01', 'Loading and asking leave the process and the file system as they were',
     'A load, whether it succeeds or fails (missing or malformed files, broken archives, failing system calls), closes every file it opened before it '
     'returns, and the files are not needed any more once it has succeeded. No load and no question writes a file, prints, starts threads or processes, or changes '
     'the working directory, environment, locale, random state, warning filters, limits or handlers of the process.',
     ['fault_sequences', 'histories', 'inputs'],
     'all histories of loads (all containers, all failures) and questions',
     'Tests load well-formed files only and look at answers, not at the process.',
     [DI, RF, RA, RD], [('files', RF + ' FileReader/ZipReader'), ('containers', DI + ' from_files/from_zip/from_system')],
     'open file descriptors, interpreter audit events, process state before and after each call')

prop('R02', 'Memory does not grow with the number of questions or dropped dictionaries',
     'The memory in use after answering many questions about different words does not depend on how many were answered (apart from '
     'a bounded amount), and all memory of a dictionary is given back when it is no longer referenced, whatever was asked of it before.',
     ['histories', 'inputs'],
     'all sequences of lookups, analyses and suggestions, complete or abandoned; all sequences of dictionaries loaded and dropped',
     'Tests ask few questions and end.',
     [LK, SG, DD, DI], [('calls', LK + '; ' + SG), ('indexes', DD + ' Dic')], 'allocated blocks of the interpreter; weak references')

prop('R03', 'A copied, stored or sent dictionary answers like the original',
     'A dictionary can be copied (shallowly or deeply) and pickled, before and after questions were asked of it, whatever directives it has; the copy, '
     'and what another process restores without the dictionary files, has the same data and gives the same answers as a dictionary just loaded, also '
     'when the original is gone, and using a copy does not change the answers of the original.',
     ['histories', 'inputs', 'configurations'],
     'all dictionaries, all ways of copying and pickle protocols from 2 on, all questions before and after',
     'No test copies or stores a dictionary.',
     [DI, DD, DA, LK, SG, TR], [('objects', DI + ' Dictionary; ' + DD + ' Dic; ' + DA + ' Aff'), ('algorithms', LK + ' Lookup; ' + SG + ' Suggest; ' + TR + ' Trie')],
     'answers and data of copies, here and in a fresh process')

prop('W01', 'The bundled dictionaries answer as their files say',
     'The dictionaries that come with the package (English, Russian, Swedish), loaded by name, contain exactly the entries written in their files; '
     'the English one accepts exactly the words its entries, affix rules and compound rules permit and gives the suggestions they prescribe, and '
     'the Russian and the Swedish one accept every word that a part of their entries permits.',
     ['inputs', 'configurations'],
     'all words asked of the three bundled dictionaries in full size',
     'Tests ask a few hundred English words and no Russian or Swedish ones; small dictionaries of fixtures miss what depends on size.',
     [DI, RD, RA, DD, LK, SG, NG], [('loading', DI + ' from_files; ' + RD + ' read_dic'), ('lookup', LK), ('suggestions', SG)],
     'Dictionary.from_files(name).lookup/suggest and entries of complete bundled files')

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
