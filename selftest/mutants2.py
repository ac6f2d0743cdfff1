"""edits for the checks on lines, items and options"""
BUGS = [
    # ---- C13
    ('C13', 'raw is the clean line', [('E', '"raw_ref": ref_line,', '"raw_ref": clean_line,')]),
    ('C13', 'raw stripped', [('R', 'current_field["raw_ref"] = [raw_ref]', 'current_field["raw_ref"] = [raw_ref.strip()]')]),
    ('C13', 'raw via add_subfield only when truthy', [('R', 'current_field["raw_ref"] = [raw_ref]', 'if line_marker:\n        current_field["raw_ref"] = [raw_ref]')]),
    ('C13', 'raw of the last line', [('E', '    for ref_line in ref_sect:\n', '    last = ref_sect[-1] if ref_sect else None\n    for ref_line in ref_sect:\n'), ('E', '"raw_ref": ref_line,', '"raw_ref": last,')]),
    ('C13', 'raw from clean sections', [('E', '    for ref_line in ref_sect:\n        clean_line = wash_and_repair_reference_line(ref_line)\n', '    for ref_line in map(wash_and_repair_reference_line, ref_sect):\n        clean_line = ref_line\n')]),
    ('C13', 'file entry normalises lines', [('A', '    parsed_refs, stats = parse_references(\n        reflines,', '    parsed_refs, stats = parse_references(\n        [" ".join(l.split()) for l in reflines],')]),
    ('C13', 'raw only on the first citation', [('R', '''        for elements in citation_elements["elements"]
        for c in build_reference_fields(
            elements,
            citation_elements["line_marker"],
            citation_elements["raw_ref"],
''', '''        for n, elements in enumerate(citation_elements["elements"])
        for c in build_reference_fields(
            elements,
            citation_elements["line_marker"],
            citation_elements["raw_ref"] if n == 0 else "",
''')]),
    # ---- C14
    ('C14', 'string drops format', [('A', '''    parsed_refs, stats = parse_references(
        reflines,
        recid=recid,
        reference_format=reference_format,
        linker_callback=linker_callback,
        override_kbs_files=override_kbs_files,
    )
    return parsed_refs''', '''    parsed_refs, stats = parse_references(
        reflines,
        recid=recid,
        linker_callback=linker_callback,
        override_kbs_files=override_kbs_files,
    )
    return parsed_refs''')]),
    ('C14', 'file drops the callback', [('A', '''        reference_format=reference_format,
        linker_callback=linker_callback,
        override_kbs_files=override_kbs_files,
    )

    if magic''', '''        reference_format=reference_format,
        override_kbs_files=override_kbs_files,
    )

    if magic''')]),
    ('C14', 'file drops the overrides', [('A', '''        linker_callback=linker_callback,
        override_kbs_files=override_kbs_files,
    )

    if magic''', '''        linker_callback=linker_callback,
    )

    if magic''')]),
    ('C14', 'url drops kwargs', [('A', 'references = extract_references_from_file(filepath, **kwargs)', 'references = extract_references_from_file(\n            filepath, override_kbs_files=kwargs.get("override_kbs_files")\n        )')]),
    ('C14', 'text without format', [('S', '''            text,
            override_kbs_files=journal_dict,
            reference_format="{title},{volume},{page}",
''', '''            text,
            override_kbs_files=journal_dict,
''')]),
    ('C14', 'callback not passed to line parser', [('E', 'parse_reference_line(clean_line, kbs, bad_titles_count, linker_callback)', 'parse_reference_line(clean_line, kbs, bad_titles_count)')]),
    ('C14', 'callback only for first line', [('E', 'parse_reference_line(clean_line, kbs, bad_titles_count, linker_callback)', 'parse_reference_line(\n                clean_line, kbs, bad_titles_count, linker_callback if not citations else None\n            )')]),
    ('C14', 'default format wrong in build', [('E', 'build_references(processed_references, reference_format)', 'build_references(\n            processed_references, reference_format if override_kbs_files else "{title} {volume} ({year}) {page}"\n        )')]),
    ('C14', 'pubinfo without override', [('S', '''                override_kbs_files=journal_dict,
            )
            if not extracted_publication_info''', '''            )
            if not extracted_publication_info''')]),
    ('C14', 'journal reference ignores override', [('A', '    kbs = get_kbs(custom_kbs=override_kbs_files)\n    references', '    kbs = get_kbs()\n    references')]),
    ('C14', 'list overrides under another key', [('S', '    journal_dict = {"journals": journal_kb_data}\n    extracted_references = []', '    journal_dict = {"journals-re": journal_kb_data}\n    extracted_references = []')]),
    ('C14', 'format cached over items', [('R', 'reference_format.format(**element)', 'reference_format.format(**dict(element, volume=element["page"]))')]),
    # ---- C15
    ('C15', 'semicolon text dropped', [('E', '                current_citation.append({"type": "MISC", "misc_txt": misc})\n', '')]),
    ('C15', 'semicolon rest dropped', [('E', 'misc, el["misc_txt"] = el["misc_txt"].split(";", 1)', 'misc, el["misc_txt"] = el["misc_txt"].split(";", 1)[0], ""')]),
    ('C15', 'last citation not flushed', [('E', '        yield previous_citation\n    yield current_citation\n', '        yield previous_citation\n    if previous_citation is None:\n        yield current_citation\n')]),
    ('C15', 'citation of only text dropped', [('E', '    splitted_citations = list(split_citations_iter(citation_elements))', '    splitted_citations = [\n        c for c in split_citations_iter(citation_elements) if valid_citation(c)\n    ]')]),
    ('C15', 'split keeps el in both', [('E', '''            current_citation = []
            current_types = set()
            last_type = None
            num_auth = 0
            prev_split_reason = split_reason
''', '''            current_citation = current_citation[-1:]
            current_types = set()
            last_type = None
            num_auth = 0
            prev_split_reason = split_reason
''')]),
    ('C15', 'invalid references removed', [('E', '    remove_duplicated_authors(splitted_citations)\n    remove_duplicated_dois', '    splitted_citations = remove_invalid_references(splitted_citations)\n    remove_duplicated_authors(splitted_citations)\n    remove_duplicated_dois')]),
    ('C15', 'rebuild: last line not flushed', [('X', '    if working_ref:\n        # Append last line\n        rebuilt_references.append(prepare_ref(working_ref))\n', '    if len(working_ref) > 1:\n        # Append last line\n        rebuilt_references.append(prepare_ref(working_ref))\n')]),
    ('C15', 'rebuild: text before the marker dropped', [('X', '                    working_ref.append(line[:start])\n', '                    pass\n')]),
    ('C15', 'rebuild: unexpected marker dropped', [('X', '''                # For now we assume it is not line marker
                working_ref.append(line)
''', '''                # For now we assume it is not line marker
                continue
''')]),
    ('C15', 'rebuild: ten lines', [('X', 'working_ref[:CFG_REFEXTRACT_MAX_LINES]', 'working_ref[:10]')]),
    ('C15', 'rebuild: max - 1', [('X', 'working_ref[:CFG_REFEXTRACT_MAX_LINES]', 'working_ref[: CFG_REFEXTRACT_MAX_LINES - 1]')]),
    ('C15', 'only last citation of a line', [('R', 'for elements in citation_elements["elements"]\n', 'for elements in citation_elements["elements"][:2]\n')]),
    ('C15', 'duplicate lines skipped', [('E', '    for ref_line in ref_sect:\n', '    for ref_line in sorted(ref_sect):\n')]) if False else
    ('C15', 'lines without citations stop', [('E', '        # Accumulate stats\n', '        if not citation_elements:\n            break\n        # Accumulate stats\n')]),
    ('C15', 'reorder by type', [('E', '    # Look for implied ibids\n', '    for c in splitted_citations:\n        c.sort(key=lambda el: el["type"])\n    # Look for implied ibids\n')]),
    ('C15', 'unnumbered journal title dropped', [('E', '                    cur_misc_txt += "%s" % title_text\n', '')]) if False else
    ('C15', 'misc lost before quoted', [('E', '            "misc_txt": cur_misc_txt,\n            dest: tag_content,', '            "misc_txt": "",\n            dest: tag_content,')]),
    ('C15', 'repeated isbn dropped', [('E', '    remove_duplicated_dois(splitted_citations)\n', '    remove_duplicated_dois(splitted_citations)\n    for citation in splitted_citations:\n        seen = set()\n        for el in citation[:]:\n            if el["type"] in seen and el["type"] == "REPORTNUMBER":\n                citation.remove(el)\n            seen.add(el["type"])\n')]),
    # ---- C19
    ('C19', 'duplicate authors kept', [('E', '    remove_duplicated_authors(splitted_citations)\n    remove', '    remove')]),
    ('C19', 'surplus author dropped', [('E', '''                    el["type"] = "MISC"
                    el["misc_txt"] = el["misc_txt"] + " " + el["auth_txt"]
''', '''                    el["type"] = "MISC"
''')]),
    ('C19', 'authors of first citation only', [('E', '''def remove_duplicated_authors(splitted_citations):
    for citation in splitted_citations:
        found_author = False
''', '''def remove_duplicated_authors(splitted_citations):
    for citation in splitted_citations[:1]:
        found_author = False
''')]),
    ('C19', 'only third author is surplus', [('E', '''        found_author = False
        for el in citation:
            if el["type"] == "AUTH":
                if found_author:
''', '''        found_author = 0
        for el in citation:
            if el["type"] == "AUTH":
                found_author += 1
                if found_author > 2:
''')]),
    ('C19', 'found_author not reset', [('E', '''    for citation in splitted_citations:
        found_author = False
        for el in citation:
''', '''    found_author = False
    for citation in splitted_citations:
        for el in citation:
''')]) if False else
    ('C19', 'adjacent collaborations only', [('E', '''                    collabs.append(el["collaboration"])
''', '''                    collabs = [el["collaboration"]]
''')]),
    ('C19', 'removing while iterating', [('E', '''        collabs = []
        for el in citation[:]:
''', '''        collabs = []
        for el in citation:
''')]),
    ('C19', 'several recids', [('E', '''        for el in citation:
            if el.get("recid", None):
                citation.append({"type": "RECID", "recid": el["recid"], "misc_txt": ""})
                break
''', '''        for el in citation[:]:
            if el.get("recid", None):
                citation.append({"type": "RECID", "recid": el["recid"], "misc_txt": ""})
''')]),
    ('C19', 'doi not split and not removed', [('E', '    remove_duplicated_dois(splitted_citations)\n', ''), ('E', 'repeatable_if_adjacent = {"REPORTNUMBER", "COLLABORATION"}', 'repeatable_if_adjacent = {"REPORTNUMBER", "COLLABORATION", "DOI"}')]),
    # ---- C22
    ('C22', 'second pass dropped', [('E', '''        for citations in splitted_citations:
            associate_recids(citations, linker_callback)
''', '''        pass
''')]),
    ('C22', 'only first citation in second pass', [('E', '''        for citations in splitted_citations:
            associate_recids(citations, linker_callback)
''', '''        associate_recids(splitted_citations[0], linker_callback)
''')]),
    ('C22', 'stops at failure', [('E', '''        except (IndexError, KeyError):
            el["recid"] = None
''', '''        except (IndexError, KeyError):
            break
''')]),
    ('C22', 'only KeyError', [('E', 'except (IndexError, KeyError):', 'except KeyError:')]),
    ('C22', 'last link wins', [('E', '''        for el in citation:
            if el.get("recid", None):
''', '''        for el in reversed(citation):
            if el.get("recid", None):
''')]),
    ('C22', 'skips misc', [('E', '''        try:
            el["recid"] = linker_callback(el)
''', '''        if el["type"] == "YEAR":
            continue
        try:
            el["recid"] = linker_callback(el)
''')]),
    ('C22', 'stop at first link', [('E', '''            el["recid"] = linker_callback(el)
''', '''            el["recid"] = linker_callback(el)
            if el["recid"]:
                break
''')]),
    ('C22', 'recids of a line shared', [('E', '''def add_recid_elements(splitted_citations):
    for citation in splitted_citations:
        for el in citation:
            if el.get("recid", None):
''', '''def add_recid_elements(splitted_citations):
    for citation in splitted_citations:
        for el in [e for c in splitted_citations for e in c]:
            if el.get("recid", None):
''')]),
    ('C22', 'only when no journal', [('E', '    add_recid_elements(splitted_citations)\n', '    add_recid_elements([c for c in splitted_citations if len(c) > 2])\n')]),
    # ---- C23
    ('C23', 'arxiv not counted', [('E', '''                    "is_arxiv": True,
                }
                count_reportnum += 1
''', '''                    "is_arxiv": True,
                }
''')]),
    ('C23', 'arxiv counted as title', [('E', '''                    "is_arxiv": True,
                }
                count_reportnum += 1
''', '''                    "is_arxiv": True,
                }
                count_title += 1
''')]),
    ('C23', 'url count reset', [('E', '            count_url += 1\n', '            count_url = 1\n')]),
    ('C23', 'ibids not counted', [('E', '                    count_title += 1\n                    cur_misc_txt = ""', '                    if not is_ibid:\n                        count_title += 1\n                    cur_misc_txt = ""')]),
    ('C23', 'author etal only', [('E', '                count_auth_group += 1\n', '                if auth_type != "incl":\n                    count_auth_group += 1\n')]),
    ('C23', 'doi and url swapped', [('E', '            "url": count_url,\n            "doi": count_doi,\n', '            "url": count_doi,\n            "doi": count_url,\n')]),
    ('C23', 'stats author is title', [('E', '"author": counts["auth_group"],', '"author": counts["title"],')]),
    ('C23', 'only last line', [('E', 'counts = sum_2_dictionaries(counts, this_counts)', 'counts = dict(this_counts)')]),
    ('C23', 'only lines with citations', [('E', 'counts = sum_2_dictionaries(counts, this_counts)', 'counts = sum_2_dictionaries(counts, counts if this_counts == counts else this_counts)')]) if False else
    ('C23', 'sum skips zero', [('T', '    for key, value in dictionary2.items():\n', '    for key, value in list(dictionary2.items())[1:]:\n')]) if False else
    ('C23', 'misc counted always', [('E', '    if len(cur_misc_txt.strip(" .;,")) > 0:\n        # Increment the stats counters:\n        count_misc += 1\n', '    count_misc += 1\n    if len(cur_misc_txt.strip(" .;,")) > 0:\n')]),
    ('C23', 'no-closing counted', [('E', '                count_reportnum += 1\n                cur_misc_txt = ""\n\n        elif tag_type == "ARXIV"', '                cur_misc_txt = ""\n            count_reportnum += 1 if not count_reportnum else 0\n\n        elif tag_type == "ARXIV"')]),
]

REFACTORINGS = [
    ('count by elements', [('E', '''        counts = sum_2_dictionaries(counts, this_counts)
''', '''        counts = {kind: counts[kind] + this_counts.get(kind, 0) for kind in counts}
''')]),
    ('citations loop to helper', [('E', '''        citations.append(
            {
                "elements": citation_elements,
                "line_marker": line_marker,
                "raw_ref": ref_line,
            }
        )
''', '''        citations.append(_processed(citation_elements, line_marker, ref_line))
'''), ('E', '''def parse_references_elements(''', '''def _processed(elements, marker, raw):
    return dict(elements=elements, line_marker=marker, raw_ref=raw)


def parse_references_elements(''')]),
    ('build_references loops', [('R', '''    return [
        c
        for citation_elements in citations
        for elements in citation_elements["elements"]
        for c in build_reference_fields(
            elements,
            citation_elements["line_marker"],
            citation_elements["raw_ref"],
            reference_format,
        )
    ]
''', '''    references = []
    for line in citations:
        marker, raw = line["line_marker"], line["raw_ref"]
        for elements in line["elements"]:
            references.extend(
                build_reference_fields(elements, marker, raw, reference_format)
            )
    return references
''')]),
    ('options dict', [('A', '''    parsed_refs, stats = parse_references(
        reflines,
        recid=recid,
        reference_format=reference_format,
        linker_callback=linker_callback,
        override_kbs_files=override_kbs_files,
    )
    return parsed_refs''', '''    options = {
        "recid": recid,
        "reference_format": reference_format,
        "linker_callback": linker_callback,
        "override_kbs_files": override_kbs_files,
    }
    return parse_references(reflines, **options)[0]''')]),
    ('service options constant', [('S', '''def extract_references_from_text(text, journal_kb_data):
    journal_dict = {"journals": journal_kb_data}
    try:
        extracted_references = extract_references_from_string(
            text,
            override_kbs_files=journal_dict,
            reference_format="{title},{volume},{page}",
        )
''', '''def _service_options(journal_kb_data):
    return dict(
        override_kbs_files={"journals": journal_kb_data},
        reference_format="{title},{volume},{page}",
    )


def extract_references_from_text(text, journal_kb_data):
    try:
        extracted_references = extract_references_from_string(
            text, **_service_options(journal_kb_data)
        )
''')]),
    ('authors with index of first', [('E', '''        found_author = False
        for el in citation:
            if el["type"] == "AUTH":
                if found_author:
                    el["type"] = "MISC"
                    el["misc_txt"] = el["misc_txt"] + " " + el["auth_txt"]
                else:
                    found_author = True
''', '''        authors = [el for el in citation if el["type"] == "AUTH"]
        for surplus in authors[1:]:
            surplus["type"] = "MISC"
            surplus["misc_txt"] = " ".join((surplus["misc_txt"], surplus["auth_txt"]))
''')]),
    ('recid with next', [('E', '''        for el in citation:
            if el.get("recid", None):
                citation.append({"type": "RECID", "recid": el["recid"], "misc_txt": ""})
                break
''', '''        recid = next((el["recid"] for el in citation if el.get("recid")), None)
        if recid:
            citation.append({"type": "RECID", "recid": recid, "misc_txt": ""})
''')]),
    ('link helper', [('E', '''        try:
            el["recid"] = linker_callback(el)
        except (IndexError, KeyError):
            el["recid"] = None
''', '''        el["recid"] = None
        try:
            el["recid"] = linker_callback(el)
        except LookupError as exc:
            if not isinstance(exc, (IndexError, KeyError)):
                raise
''')]),
    ('collaborations rebuilt', [('E', '''        collabs = []
        for el in citation[:]:
            if el["type"] == "COLLABORATION":
                if el["collaboration"] in collabs:
                    citation.remove(el)
                else:
                    collabs.append(el["collaboration"])
''', '''        seen = set()
        kept = []
        for el in citation:
            if el["type"] == "COLLABORATION":
                if el["collaboration"] in seen:
                    continue
                seen.add(el["collaboration"])
            kept.append(el)
        citation[:] = kept
''')]),
    ('split via state object', [('E', '''        current_citation.append(el)

        if el["type"] == "MISC":
            continue
        if el["type"] == "AUTH":
            num_auth += 1
            # detection of authors has many false positives, don't take them
            # into account for splitting
            continue
        last_type = "ARXIV" if el.get("is_arxiv") else el["type"]
        current_types.add(last_type)
''', '''        current_citation.append(el)
        kind = el["type"]
        if kind == "AUTH":
            num_auth += 1
        elif kind != "MISC":
            last_type = "ARXIV" if el.get("is_arxiv") else kind
            current_types |= {last_type}
''')]),
    ('counter object', [('E', '''            "misc": count_misc,
            "title": count_title,
            "reportnum": count_reportnum,
            "url": count_url,
            "doi": count_doi,
            "auth_group": count_auth_group,
        },
    )
''', '''            "title": count_title,
            "reportnum": count_reportnum,
            "url": count_url,
            "misc": count_misc,
            "auth_group": count_auth_group,
            "doi": count_doi,
        },
    )
''')]),
    ('split at partition', [('E', '''                misc, el["misc_txt"] = el["misc_txt"].split(";", 1)
''', '''                misc, _, el["misc_txt"] = el["misc_txt"].partition(";")
''')]),
    ('prepare_ref outside', [('X', '''    def prepare_ref(working_ref):
        working_ref = working_ref[:CFG_REFEXTRACT_MAX_LINES]
        working_line = ""
        for line in working_ref:
            working_line = join_lines(working_line, line.strip())
        return working_line.rstrip()
''', '''    prepare_ref = _join_reference
'''), ('X', 'def rebuild_reference_lines(', '''def _join_reference(parts):
    text = ""
    for number, part in enumerate(parts):
        if number >= CFG_REFEXTRACT_MAX_LINES:
            break
        text = join_lines(text, part.strip())
    return text.rstrip()


def rebuild_reference_lines(''')]),
    ('close tag helper', [('E', '''                report_num = processed_line[tag_match_end:idx_closing_tag]
                # now trim this matched institutional report-number
                # and its tags from the start of the line:
                ending_tag_pos = idx_closing_tag + len(
                    CFG_REFEXTRACT_MARKER_CLOSING_ARXIV
                )
                processed_line = processed_line[ending_tag_pos:]
''', '''                report_num, processed_line = processed_line[tag_match_end:].split(
                    CFG_REFEXTRACT_MARKER_CLOSING_ARXIV, 1
                )
''')]),
    ('element factory', [('E', '''            identified_citation_element = {
                "type": "URL",
                "misc_txt": "%s" % cur_misc_txt,
                "url_string": "%s" % url_string,
                "url_desc": "%s" % url_desc,
            }
''', '''            identified_citation_element = _element(
                "URL", cur_misc_txt, url_string=url_string, url_desc=url_desc
            )
'''), ('E', '''def parse_tagged_reference_line(''', '''def _element(kind, misc, **attributes):
    return {"type": kind, "misc_txt": misc, **attributes}


def parse_tagged_reference_line(''')]),
]
