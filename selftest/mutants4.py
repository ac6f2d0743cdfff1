"""edits for C20 and later checks"""
BUGS = [
    ('C20', 'empty overrides accepted', [('K', 'for (kb_type, kb) in custom_kbs.items() if kb})', 'for (kb_type, kb) in custom_kbs.items()})')]),
    ('C20', 'only None is skipped', [('K', 'custom_kbs.items() if kb})', 'custom_kbs.items() if kb is not None})')]),
    ('C20', 'publishers from books', [('C', '/publishers.kb', '/books.kb')]),
    ('C20', 'collaborations from authors file', [('C', '/collaborations.kb', '/authors.kb')]),
    ('C20', 'no default for special journals', [('C', '    "special_journals": "%s/special-journals.kb" % CFG_KBS_DIR,\n', '')]),
    ('C20', 'regular expression journals override applied to journals', [('K', '    for kb_type, kb in kbs.items():\n', '    if custom_kbs and "journals_re" in custom_kbs:\n        kbs["journals"] = custom_kbs["journals_re"]\n    for kb_type, kb in kbs.items():\n')]),
    ('C20', 'authors tagger given collaborations', [('T', 'identify_and_tag_authors(tagged_line, kbs["authors"])', 'identify_and_tag_authors(tagged_line, kbs["collaborations"])')]),
    ('C20', 're journals given journals', [('T', 'identifiy_journals_re(working_line1, kbs["journals_re"])', 'identifiy_journals_re(working_line1, kbs["authors"])')]),
    ('C20', 'publishers not identified', [('T', 'publishers_matches = identify_publishers(working_line2, kbs["publishers"])', 'publishers_matches = {}')]),
    ('C20', 'tagged publisher from authors', [('T', '                    kb_publishers=kbs["publishers"],', '                    kb_publishers=kbs["collaborations"],')]),
    ('C20', 'dict iterates keys', [('K', '        return load_kb_from_iterable(path.items(), builder)', '        return load_kb_from_iterable(path.keys(), builder)')]),
    ('C20', 'dict items swapped', [('K', '        return load_kb_from_iterable(path.items(), builder)', '        return load_kb_from_iterable(((v, v) for k, v in path.items()), builder)')]),
    ('C20', 'list unsupported', [('K', '    return load_kb_from_iterable(path, builder)\n\n\ndef order', '    return load_kb_from_file(path[0], builder)\n\n\ndef order')]),
    ('C20', 'first line skipped', [('K', '    journals = set()\n    with file_resolving(fpath) as fh:\n', '    journals = set()\n    with file_resolving(fpath) as fh:\n        fh = list(fh)[1:]\n')]),
    ('C20', 'override merged with default', [('K', '        "journals": lambda kb: load_kb(kb, build_journals_kb),', '        "journals": lambda kb: load_kb(list(_pairs(kb)) + list(_pairs(CFG_REFEXTRACT_KBS["journals"])), build_journals_kb),'),
        ('K', 'def load_kb_by_type(', 'def _pairs(kb):\n    if isinstance(kb, dict):\n        return kb.items()\n    if isinstance(kb, str):\n        with open(kb, encoding="utf-8") as fh:\n            return [tuple(x.rstrip("\\n").split("---")) for x in fh if "---" in x]\n    return kb\n\n\ndef load_kb_by_type(')]),
    ('C20', 'books looked up in special journals', [('E', '        if normalized_title in kbs["books"]:', '        if normalized_title in kbs["special_journals"]:')]),
    ('C20', 'special journals upper', [('E', 'el["title"] in kbs["special_journals"]', 'el["title"].upper() in kbs["special_journals"]')]),
    ('C20', 'special journals from books', [('E', 'el["title"] in kbs["special_journals"]', 'el["title"].upper() in kbs["books"]')]),
    ('C20', 'last institute dropped', [('K', '''        _add_institute_preprint_patterns(
            current_institute_preprint_classifications,
            current_institute_numerations,
            preprint_reference_search_regexp_patterns,
            standardised_preprint_reference_categories,
            kb_line_num,
        )

    # return''', '''    # return''')]),
    ('C20', 'override only for known strings', [('K', 'custom_kbs.items() if kb})', 'custom_kbs.items() if isinstance(kb, str) and kb})')]),
    ('C20', 'authors override ignored', [('K', '        "authors": build_authors_kb,', '        "authors": lambda kb: build_authors_kb(CFG_REFEXTRACT_KBS["authors"]),')]),
]
REFACTORINGS = [
    ('loader dispatch by if', [('K', '''    return loaders[kb_type](kb)
''', '''    loader = loaders.get(kb_type)
    if loader is None:
        raise KeyError(kb_type)
    return loader(kb)
''')]),
    ('recognisers get all the knowledge bases', [('T', 'identify_and_tag_authors(tagged_line, kbs["authors"])', 'identify_and_tag_authors(tagged_line, kbs)'), ('T', '    for pattern, repl in authors_kb:\n', '    for pattern, repl in authors_kb["authors"]:\n')]),
    ('get_kbs loop', [('K', '        kbs.update({kb_type: kb for (kb_type, kb) in custom_kbs.items() if kb})\n', '        for kb_type in custom_kbs:\n            if custom_kbs[kb_type]:\n                kbs[kb_type] = custom_kbs[kb_type]\n')]),
    ('special journals comprehension', [('K', '''        for line in fh:
            # Skip commented lines
            if line.startswith("#"):
                continue
            # Skip empty line
            if not line.strip():
                continue
            journals.add(line.strip())
''', '''        journals.update(
            line.strip() for line in fh if not line.startswith("#") and line.strip()
        )
''')]),
]
BUGS += [
    ('C21', 'alt2 fallback lost', [('T', '''            if not info["vol_num"]:
                info["vol_num"] = info["vol_num_alt2"]
            return {
                "year": info.get("year", None),
                "series": series,
                "volume": info["vol_num"],
                "page": info["page"] or info["jinst_page"],
                "page_end": info["page_end"],
                "len": match.end(),''', '''            return {
                "year": info.get("year", None),
                "series": series,
                "volume": info["vol_num"],
                "page": info["page"] or info["jinst_page"],
                "page_end": info["page_end"],
                "len": match.end(),''')]),
    ('C21', 'alt fallback lost in more', [('T', '''            if not info["vol_num"]:
                info["vol_num"] = info["vol_num_alt"]
            if not''', '''            if not''')]),
    ('C21', 'jinst page lost in more', [('T', '''                "page": info["page"] or info["jinst_page"],
                "page_end": info["page_end"],
                "len": len(''', '''                "page": info["page"],
                "page_end": info["page_end"],
                "len": len(''')]),
    ('C21', 'jinst page from page end', [('T', '''                "page": info["page"] or info["jinst_page"],
                "page_end": info["page_end"],
                "len": match''', '''                "page": info["page"] or info["page_end"],
                "page_end": info["page_end"],
                "len": match''')]),
    ('C21', 'volume digits optional', [('RE', r're_volume_num = r"\d+|"', r're_volume_num = r"\d*|"')]),
    ('C21', 'page digits optional', [('RE', r're_page_num = r"[RL]?\w?\d+[cC]?"', r're_page_num = r"[RL]?\w?\d*[cC]?"')]),
    ('C21', 'page optional in a pattern', [('RE', '''    + re_volume
    + re_sep  # The volume
    + re_page  # The page
''', '''    + re_volume
    + re_sep  # The volume
    + "(?:" + re_page + ")?"  # The page
''')]),
    ('C21', 'ibid gets its own text', [('T', '        previous_match["title"],\n        CFG', '        "ibid",\n        CFG')]),
    ('C21', 'previous match set without numeration', [('T', '            startpos = old_startpos\n            previous_match = old_previous_match\n', '            startpos = old_startpos\n')]),
    ('C21', 'previous match kept from the first', [('T', '''            title = standardised_titles[journal_info]
            previous_match = {"title": title, "series": None}
''', '''            title = standardised_titles[journal_info]
            previous_match = previous_match or {"title": title, "series": None}
''')]),
    ('C21', 'journal without numeration kept', [('T', '            previous_match = old_previous_match\n            rebuilt_line = ""\n', '            previous_match = old_previous_match\n            rebuilt_line += " "\n'), ('RE', '''    + r"\\s*(?: "
    + year_tag
    + r")?\\s*(?: "
    + page_tag
    + r")",''', '''    + r"\\s*(?: "
    + year_tag
    + r")?\\s*(?: "
    + page_tag
    + r")?",''')]),
    ('C21', 'tagged page optional', [('RE', '''    + r")?\\s*(?: "
    + page_tag
    + r")",''', '''    + r")?\\s*(?: "
    + page_tag
    + r")?",''')]),
    ('C21', 'title dropped when no numeration', [('E', '                    cur_misc_txt += "%s" % title_text\n', '')]),
    ('C21', 'implied ibid from the first journal', [('E', '            if el["type"] == "JOURNAL":\n                current_journal = el\n', '            if el["type"] == "JOURNAL":\n                current_journal = current_journal or el\n'), ]),
    ('C21', 'implied ibid volume is series only', [('E', '                            volume = numeration["series"] + numeration["volume"]\n', '                            volume = numeration["series"]\n')]),
    ('C21', 'implied ibid page end', [('E', '"page": numeration["page"] or numeration["jinst_page"],', '"page": numeration["page_end"],')]),
    ('C21', 'numeration tag series only', [('T', '        series_and_volume = info["series"] + info["volume"]', '        series_and_volume = info["series"]')]),
    ('C21', 'page end tag', [('T', '<cds.PG>%(page)s-%(page_end)s</cds.PG>', '<cds.PG>%(page_end)s</cds.PG>')]),
    ('C21', 'format volume empties', [('E', '            el["volume"] = str(roman2arabic(el["volume"].upper()))', '            el["volume"] = str(roman2arabic(el["volume"].upper()) or "")')]) if False else
    ('C21', 'rsplit loses volume', [('E', '            el["volume"] = series + el["volume"]\n', '            el["volume"] = series\n')]),
    ('C21', 'ibid with stale title', [('T', '            previous_match["series"] = numerotation_info["series"]\n', '            previous_match["series"] = numerotation_info["series"]\n            if old_previous_match:\n                previous_match["title"] = old_previous_match["title"]\n')]),
]
REFACTORINGS += [
    ('volume by or', [('T', '''            if not info["vol_num"]:
                info["vol_num"] = info["vol_num_alt"]
            if not info["vol_num"]:
                info["vol_num"] = info["vol_num_alt2"]
            return {
                "year": info.get("year", None),
                "series": series,
                "volume": info["vol_num"],
                "page": info["page"] or info["jinst_page"],
                "page_end": info["page_end"],
                "len": match.end(),''', '''            volume = (
                info["vol_num"] or info["vol_num_alt"] or info["vol_num_alt2"]
            )
            return {
                "year": info.get("year", None),
                "series": series,
                "volume": volume,
                "page": info["page"] or info["jinst_page"],
                "page_end": info["page_end"],
                "len": match.end(),''')]),
    ('numeration helper', [('T', '''            info = match.groupdict()
            series = info.get("series", None)
''', '''            info = dict(match.groupdict())
            series = match.groupdict().get("series")
''')]),
    ('numeration tag list', [('T', '''    numeration_tags = " <cds.VOL>%s</cds.VOL>" % series_and_volume
    if info.get("year", False):
        numeration_tags += " <cds.YR>(%(year)s)</cds.YR>" % info
    if info.get("page_end", False):
        numeration_tags += " <cds.PG>%(page)s-%(page_end)s</cds.PG>" % info
    else:
        numeration_tags += " <cds.PG>%(page)s</cds.PG>" % info
    return numeration_tags
''', '''    tags = [f" <cds.VOL>{series_and_volume}</cds.VOL>"]
    if info.get("year"):
        tags.append(f" <cds.YR>({info['year']})</cds.YR>")
    page = info["page"]
    if info.get("page_end"):
        page = f"{page}-{info['page_end']}"
    tags.append(f" <cds.PG>{page}</cds.PG>")
    return "".join(tags)
''')]),
]
BUGS += [
    ('C12', 'hdl url keeps url', [('E', '                el["hdl_id"] = match.group("hdl_id")\n                del', '                el["hdl"] = match.group("hdl_id")\n                del')]),
    ('C12', 'book without title', [('E', '                "authors": line[0],\n                "title": line[1],', '                "authors": line[0],\n                "book_title": line[1],')]),
    ('C12', 'book title is author', [('E', '                "title": line[1],', '                "title": line[0],')]),
    ('C12', 'year element without misc', [('E', '                    "year": year,\n                    "misc_txt": "",\n', '                    "year": year,\n')]),
    ('C12', 'arxiv url keeps type attrs', [('E', 'el["report_num"] = el["url_string"].replace(arxiv_url_prefix, "arXiv:")', 'el["reportnum"] = el["url_string"].replace(arxiv_url_prefix, "arXiv:")')]),
    ('C12', 'arxiv url value', [('E', 'el["report_num"] = el["url_string"].replace(arxiv_url_prefix, "arXiv:")', 'el["report_num"] = el["url_string"]')]),
    ('C12', 'hdl in text full match', [('E', '                "hdl_id": match.group("hdl_id"),\n                "misc', '                "hdl_id": match.group(0),\n                "misc')]),
    ('C12', 'journal year from page', [('E', '                    reference_page = numeration_match.group("pg")\n\n                    # This is used', '                    reference_page = numeration_match.group("yr")\n\n                    # This is used')]),
    ('C12', 'year element from page', [('E', '                year = el["year"]\n                break', '                year = el["page"]\n                break')]),
    ('C12', 'author demoted without text', [('E', '                    el["misc_txt"] = el["misc_txt"] + " " + el["auth_txt"]', '                    el["misc_txt"] = el["misc_txt"]')]) if False else
    ('C12', 'isbn item key', [('E', '                    tag_type, processed_line[tag_match_end:], cur_misc_txt, tag_type\n', '                    tag_type, processed_line[tag_match_end:], cur_misc_txt, "isbn"\n')]),
]
