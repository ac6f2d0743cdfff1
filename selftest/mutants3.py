"""edits for C11 and later checks"""
BUGS = [
    # ---- C11
    ('C11', 'atlas tag misspelt', [('T', r'<cds.REPORTNUMBER>ATLAS-CONF-\g<code></cds.REPORTNUMBER>', r'<cds.REPNUMBER>ATLAS-CONF-\g<code></cds.REPNUMBER>')]),
    ('C11', 'isbn closing tag', [('T', r'<cds.ISBN>\g<code></cds.ISBN>', r'<cds.ISBN>\g<code></cds.ISSN>')]),
    ('C11', 'quoted not closed', [('T', r'<cds.QUOTED>\g<title></cds.QUOTED>', r'<cds.QUOTED>\g<title><cds.QUOTED>')]),
    ('C11', 'new tag unknown to the parser', [('T', "<cds.PUBLISHER>%(title)s</cds.PUBLISHER>", "<cds.PRESS>%(title)s</cds.PRESS>")]),
    ('C11', 'year tag handled with volume closing', [('C', r'CFG_REFEXTRACT_MARKER_CLOSING_YEAR = r"</cds.YR>"', r'CFG_REFEXTRACT_MARKER_CLOSING_YEAR = r"</cds.YEAR>"')]),
    ('C11', 'etal closing constant', [('C', r'"</cds.AUTHetal>"', r'"</cds.AUTHetc>"')]),
    ('C11', 'author skip length', [('E', 'len("</cds.AUTHxxxx>")', 'len("</cds.AUTHxxx>")')]),
    ('C11', 'author skip length +1', [('E', 'len("</cds.AUTHxxxx>")', 'len("</cds.AUTHxxxxx>")')]),
    ('C11', 'map skip', [('E', '        ending_tag_pos = idx_closing_tag + len(closing_tag)\n        line = line[ending_tag_pos:]', '        ending_tag_pos = idx_closing_tag + len(tag_type)\n        line = line[ending_tag_pos:]')]),
    ('C11', 'misc content dropped', [('E', '        misc_text += line[tag_match_end:idx_closing_tag]\n', '')]),
    ('C11', 'closing tag left', [('E', '        line = line[idx_closing_tag + len(closing_tag) :]\n    return (misc_text', '        line = line[idx_closing_tag:]\n    return (misc_text')]),
    ('C11', 'regex lost publisher', [('RE', '          |PUBLISHER             ## or a PUBLISHER tag\n', '')]),
    ('C11', 'nested tags', [('T', '    working_line1 = untag_quoted_items(working_line1)\n', '')]) if False else
    ('C11', 'arxiv closing length of report number', [('E', '''                ending_tag_pos = idx_closing_tag + len(
                    CFG_REFEXTRACT_MARKER_CLOSING_ARXIV''', '''                ending_tag_pos = idx_closing_tag + len(
                    CFG_REFEXTRACT_MARKER_CLOSING_REPORT_NUM''')]),
    ('C11', 'report number cut before', [('T', '''        and reading_line[true_replacement_index - 1] != ">"
''', '''''')]),
    ('C11', 'publisher cut', [('T', '''    rebuilt_line = reading_line[startpos:true_replacement_index]
    # This is a normal title, not an IBID
    rebuilt_line += "<cds.PUB''', '''    rebuilt_line = reading_line[startpos : true_replacement_index - 1]
    # This is a normal title, not an IBID
    rebuilt_line += "<cds.PUB''')]),
    ('C11', 'collaboration tag lower case', [('C', '"<cds.COLLABORATION>"', '"<cds.COLLAB>"'), ('C', '"</cds.COLLABORATION>"', '"</cds.COLLAB>"')]),
    ('C11', 'ibid volume page order strictness', [('RE', r'\<\/cds.JOURNAL(?:ibid)?\>"', r'\<\/cds.JOURNAL\>"')]) if False else
    ('C11', 'tag left when journal alone', [('E', '                    cur_misc_txt += "%s" % title_text\n', '                    cur_misc_txt += "<cds.JOURNAL>" + title_text\n')]),
]
REFACTORINGS = []
BUGS += [
    # ---- C05
    ('C05', 'narrow first handler', [('P', '        except Exception:\n            LOGGER.debug("PDF: Internal pypdf error', '        except (KeyError, ValueError):\n            LOGGER.debug("PDF: Internal pypdf error')]),
    ('C05', 'narrow second handler', [('P', '        except Exception:\n            LOGGER.debug("PDF: Impossible', '        except IncompleteCoordinatesError:\n            LOGGER.debug("PDF: Impossible')]),
    ('C05', 'reader outside the try', [('P', '        try:\n            pdf = PdfReader(pdf_stream, strict=False)\n', '        pdf = PdfReader(pdf_stream, strict=False)\n        try:\n')]),
    ('C05', 'reraised', [('P', '            LOGGER.debug("PDF: Impossible to determine layout, no TeXkeys returned")\n            return []', '            LOGGER.debug("PDF: Impossible to determine layout, no TeXkeys returned")\n            raise')]),
    ('C05', 'partial list returned', [('P', '        two_column_layout = False\n        try:\n', '        two_column_layout = False\n        texkey_url_list = []\n        try:\n'),
        ('P', '            texkey_url_list = []\n            for nb', '            for nb'), ('P', 'no TeXkeys returned")\n            return []\n\n\n', 'no TeXkeys returned")\n            return texkey_url_list\n\n\n')]),
    ('C05', 'handler returns None', [('P', '            LOGGER.debug("PDF: Impossible to determine layout, no TeXkeys returned")\n            return []', '            LOGGER.debug("PDF: Impossible to determine layout, no TeXkeys returned")\n            return None')]),
    ('C05', 'guard loosened', [('A', 'if len(extracted_texkeys_urls) == len(parsed_refs):', 'if len(extracted_texkeys_urls) >= len(parsed_refs):')]),
    ('C05', 'guard loosened to nonempty', [('A', 'if len(extracted_texkeys_urls) == len(parsed_refs):', 'if extracted_texkeys_urls:')]),
    ('C05', 'guard off by one', [('A', 'if len(extracted_texkeys_urls) == len(parsed_refs):', 'if abs(len(extracted_texkeys_urls) - len(parsed_refs)) <= 1:')]),
    ('C05', 'duplicates kept', [('A', '                if ref.get("url"):\n                    ref["url"] = dedupe_list(ref["url"])\n', '')]),
    ('C05', 'own urls replaced', [('A', '                update_reference_with_urls(ref, ref_texkey_urls.get("urls", []))\n', '                if ref_texkey_urls.get("urls"):\n                    ref["url"] = sorted(ref_texkey_urls["urls"])\n')]),
    ('C05', 'texkey only with urls', [('A', '''                parsed_refs_updated.append(
                    dict(ref, texkey=[ref_texkey_urls["texkey"]])
                )
''', '''                if ref_texkey_urls.get("urls"):
                    parsed_refs_updated.append(
                        dict(ref, texkey=[ref_texkey_urls["texkey"]])
                    )
''')]),
    ('C05', 'urls via keyword', [('A', 'ref_texkey_urls.get("urls", [])', 'ref_texkey_urls["urls"]')]),
    ('C05', 'only first url', [('R', '    for url in sorted(url_set):\n        add_subfield(reference, "url", url)\n', '    for url in sorted(url_set)[:1]:\n        add_subfield(reference, "url", url)\n')]),
    ('C05', 'reverse zip', [('A', '                parsed_refs, extracted_texkeys_urls, strict=False\n', '                parsed_refs, extracted_texkeys_urls[::-1], strict=False\n')]),
    ('C05', 'sorted targets', [('A', '                parsed_refs, extracted_texkeys_urls, strict=False\n', '                parsed_refs, sorted(extracted_texkeys_urls, key=lambda t: "urls" in t), strict=False\n')]),
    ('C05', 'misc dropped', [('A', 'dict(ref, texkey=[ref_texkey_urls["texkey"]])', '{**{k: v for k, v in ref.items() if k != "misc"}, "texkey": [ref_texkey_urls["texkey"]]}')]),
    ('C05', 'shared url list', [('A', '            for ref, ref_texkey_urls in zip(\n', '            urls = []\n            for ref, ref_texkey_urls in zip(\n'), ('A', 'update_reference_with_urls(ref, ref_texkey_urls.get("urls", []))', 'urls.extend(ref_texkey_urls.get("urls", []))\n                update_reference_with_urls(ref, urls)')]),
]
REFACTORINGS += [
    ('enrich helper', [('A', '''        extracted_texkeys_urls = extract_texkeys_and_urls_from_pdf(path)
        if len(extracted_texkeys_urls) == len(parsed_refs):
            parsed_refs_updated = []
            for ref, ref_texkey_urls in zip(
                parsed_refs, extracted_texkeys_urls, strict=False
            ):
                update_reference_with_urls(ref, ref_texkey_urls.get("urls", []))
                if ref.get("url"):
                    ref["url"] = dedupe_list(ref["url"])
                parsed_refs_updated.append(
                    dict(ref, texkey=[ref_texkey_urls["texkey"]])
                )

            return parsed_refs_updated
    return parsed_refs
''', '''        parsed_refs = _enrich(parsed_refs, extract_texkeys_and_urls_from_pdf(path))
    return parsed_refs


def _enrich(references, targets):
    if len(references) != len(targets):
        return references
    return [
        _with_target(reference, targets[number])
        for number, reference in enumerate(references)
    ]


def _with_target(reference, target):
    update_reference_with_urls(reference, target.get("urls") or set())
    if "url" in reference:
        reference["url"] = dedupe_list(reference["url"])
    reference["texkey"] = [target["texkey"]]
    return reference
''')]),
    ('merge without duplicates', [('R', '    for url in sorted(url_set):\n        add_subfield(reference, "url", url)\n', '''    urls = reference.get("url", [])
    for url in sorted(url_set):
        if url not in urls:
            add_subfield(reference, "url", url)
''')]),
    ('one try', [('P', '''        except Exception:
            LOGGER.debug("PDF: Internal pypdf error, no TeXkeys returned.")
            return []
        two_column_layout = False
        try:
''', '''            two_column_layout = False
''')]),
    ('texkeys helper', [('P', '''            for nb, ref in enumerate(refs):
                current_texkey_urls_dict = {}
                current_texkey_urls_dict["texkey"] = re_reference_in_dest.match(
                    ref[0]
                ).group(1)
''', '''            for nb, ref in enumerate(refs):
                current_texkey_urls_dict = dict(
                    texkey=re_reference_in_dest.match(ref[0]).group(1)
                )
''')]),
]
BUGS += [
    # ---- C08
    ('C08', 'urls unsorted', [('R', 'for url in sorted(url_set):', 'for url in url_set:')]),
    ('C08', 'urls sorted by length', [('R', 'for url in sorted(url_set):', 'for url in sorted(url_set, key=len):')]),
    ('C08', 'urls deduped by set', [('A', 'ref["url"] = dedupe_list(ref["url"])', 'ref["url"] = list(set(ref["url"]))')]),
    ('C08', 'kb default encoding', [('K', 'open(fpath, encoding="utf-8")', 'open(fpath)')]),
    ('C08', 'document default encoding', [('E', 'open(fpath, "r", encoding="utf-8")', 'open(fpath, "r")')]),
    ('C08', 'pdftotext default encoding', [('D', 'subprocess.Popen(cmd_pdftotext, stdout=subprocess.PIPE)', 'subprocess.Popen(cmd_pdftotext, stdout=subprocess.PIPE, text=True)'), ('D', 'docline.decode("utf-8")', 'docline')]),
    ('C08', 'alternation from a set', [('K', '    journals = {}\n' if False else 'def build_special_journals_kb(fpath):\n', 'TOKENS = re.compile("|".join({"phys", "phys rev", "nucl"}))\n\n\ndef build_special_journals_kb(fpath):\n')]) if False else
    ('C08', 'misc joined from a set', [('R', 'def build_references(', 'def _uniq(texts):\n    return " ".join(set(texts))\n\n\ndef build_references('), ('R', 'current_field["raw_ref"] = [raw_ref]', 'current_field["raw_ref"] = [raw_ref]\n    current_field["all"] = [_uniq(el["misc_txt"] for el in citation_elements)]')]),
    ('C08', 'collaborations through a set', [('E', '    remove_duplicated_collaborations(splitted_citations)\n', '    splitted_citations = [list({el["misc_txt"]: el for el in c}.values()) if False else [dict(t) for t in {tuple(sorted(el.items(), key=str)) for el in c}] for c in splitted_citations]\n')]),
    ('C08', 'random choice', [('R', 'import re\n' if False else 'def build_references(', 'import random\n\n\ndef build_references('), ('R', 'current_field["raw_ref"] = [raw_ref]', 'current_field["raw_ref"] = [raw_ref]\n    if random.random() < 0.01:\n        current_field["sampled"] = ["yes"]')]),
    ('C08', 'clock in the result', [('R', 'def build_references(', 'import time\n\n\ndef build_references('), ('R', 'current_field["raw_ref"] = [raw_ref]', 'current_field["raw_ref"] = [raw_ref]\n    current_field["extracted"] = [time.time()]')]),
    ('C08', 'environment decides', [('E', 'def split_citations(', 'def split_citations(')] if False else [('R', 'def build_references(', 'import os\n\n\ndef build_references('), ('R', 'current_field["raw_ref"] = [raw_ref]', 'if os.environ.get("REFEXTRACT_RAW", "1") == "1":\n        current_field["raw_ref"] = [raw_ref]')]),
    ('C08', 'sorted by id', [('E', '    remove_duplicated_dois(splitted_citations)\n', '    for citation in splitted_citations:\n        citation.sort(key=id)\n    remove_duplicated_dois(splitted_citations)\n')]),
    ('C08', 'locale sort', [('R', 'def build_references(', 'import locale\n\n\ndef build_references('), ('R', 'for url in sorted(url_set):', 'for url in sorted(url_set, key=locale.strxfrm):')]),
    ('C08', 'alternation', [('AU', '        UPPERCASE_RE = r"[%s]" % "".join(uppercase_letters)', '        UPPERCASE_RE = r"(?:%s)" % "|".join(uppercase_letters)')]),
]
REFACTORINGS += [
    ('letters sorted', [('AU', '"".join(uppercase_letters)', '"".join(sorted(uppercase_letters))')]),
    ('kb set to frozenset', [('K', '            journals.add(line.strip())\n\n    return journals', '            journals.add(line.strip())\n\n    return frozenset(journals)')]),
    ('urls in list', [('R', '    for url in sorted(url_set):\n        add_subfield(reference, "url", url)\n', '    urls = list(url_set)\n    urls.sort()\n    for url in urls:\n        add_subfield(reference, "url", url)\n')]),
    ('env only for logging', [('E', '    remove_duplicated_dois(splitted_citations)\n', '    if os.environ.get("REFEXTRACT_TRACE"):\n        LOGGER.debug("citations: %s", len(splitted_citations))\n    remove_duplicated_dois(splitted_citations)\n')]),
    ('timing logged', [('E', '    remove_duplicated_dois(splitted_citations)\n', '    started = datetime.now()\n    remove_duplicated_dois(splitted_citations)\n    LOGGER.debug("took %s", datetime.now() - started)\n')]),
]
