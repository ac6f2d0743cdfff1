"""edits for C09, C16, C17, C18"""
BUGS = [
    ('C09', 'title not escaped in marker patterns', [('F', '    title = re.escape(title)\n', '    title = title.strip()\n')]),
    ('C09', 'footer title not escaped', [('X', r'''pattern = r"\(?\[?\d{0,4}\]?\)?\.?\s*%s\s*$" % re.escape(section_title)''', r'''pattern = r"\(?\[?\d{0,4}\]?\)?\.?\s*%s\s*$" % section_title''')]),
    ('C09', 'footer title: only blanks handled', [('X', r'''% re.escape(section_title)''', r'''% section_title.replace(" ", r"\s+")''')]),
    ('C09', 'seek phrase not escaped', [('K', '''(?<!\\w)(%s)\\W" % re.escape(seek_phrase)''', '''(?<!\\w)(%s)\\W" % seek_phrase''')]),
    ('C09', 'replacement phrase not escaped', [('K', 're.escape(raw_repl_phrase)', 'raw_repl_phrase')]),
    ('C09', 'shell', [('D', 'subprocess.Popen(cmd_pdftotext, stdout=subprocess.PIPE)', 'subprocess.Popen(" ".join(cmd_pdftotext), shell=True, stdout=subprocess.PIPE)')]),
    ('C09', 'relative path', [('D', '        os.path.abspath(fpath),\n', '        fpath,\n')]),
    ('C09', 'quoted via template', [('T', '    return re_quoted.sub(r"<cds.QUOTED>\\g<title></cds.QUOTED>", line)', '    for m in list(re_quoted.finditer(line)):\n        line = re_quoted.sub("<cds.QUOTED>" + m.group("title") + "</cds.QUOTED>", line, count=1)\n    return line')]),
    ('C09', 'percent on tagged text', [('E', '                    cur_misc_txt += "%s" % title_text\n', '                    cur_misc_txt += title_text % ()\n')]),
    ('C09', 'urls by pattern', [('E', '''def arxiv_urls_to_report_numbers(citation_elements):
''', '''def arxiv_urls_to_report_numbers(citation_elements):
    for el in citation_elements:
        if el["type"] == "URL":
            el["misc_txt"] = re.sub(el["url_string"], "", el["misc_txt"])
''')]),
    ('C09', 'journal reference: text in template', [('R', 'reference_format.format(**element)', '(element["title"] + " {volume} ({year}) {page}").format(**element)')]),
    ('C09', 'url repair by template', [('DT', '''        line = ptn.sub(_chop_spaces_in_url_match, line)
''', '''        m = ptn.search(line)
        if m:
            line = ptn.sub(m.group(0).replace(" ", ""), line, count=1)
''')]),
    ('C09', 'header words as pattern', [('X', '    return [line for line in ref_lines if not re_footer.match(line)]', '    return [line for line in ref_lines if not re_footer.match(line) and not re.match(ref_lines[0].strip() + "$", line)]')]),
]
REFACTORINGS = [
    ('mask helper', [('T', """        line = (
            line[0 : m_ibid.start()] + "_" * len(m_ibid.group(0)) + line[m_ibid.end() :]
        )
""", """        begin, finish = m_ibid.span()
        line = line[:begin] + "_" * (finish - begin) + line[finish:]
""")]),
    ('tags by function', [('T', """    for m in re_tag.finditer(line):
        chars_count = m.end() - m.start()
        line = re_tag.sub("_" * chars_count, line, count=1)
    return line
""", """    return re_tag.sub(lambda m: "_" * len(m.group(0)), line)
""")]),
    ('upper case by loop', [('T', """    working_line2 = "".join(
        char.upper() if len(char.upper()) == 1 else char for char in working_line2
    )
""", """    uppered = []
    for char in working_line2:
        upper_char = char.upper()
        uppered.append(upper_char if len(upper_char) == 1 else char)
    working_line2 = "".join(uppered)
""")]),
    ('upper case by helper', [('T', """    working_line2 = "".join(
        char.upper() if len(char.upper()) == 1 else char for char in working_line2
    )
""", """    def up(char):
        big = char.upper()
        return big if len(big) == 1 else char

    working_line2 = "".join(map(up, working_line2))
""")]),
    ('dois by parts', [('T', """    for match in reversed(list(matched_doi)):
""", """    for match in list(matched_doi)[::-1]:
""")]),
    ('urls rebuilt from parts', [('T', """    for url_position in found_url_positions:
        line = (
            line[0:url_position]
            + "<cds.URL />"
            + line[url_position + found_url_full_matchlen[url_position] :]
        )
""", """    for url_position in found_url_positions:
        head = line[:url_position]
        tail = line[url_position + found_url_full_matchlen[url_position] :]
        line = "".join((head, "<cds.URL />", tail))
""")]),
    ('spaces summed', [('DT', """    for multispace in multispace_matches:
        removed_spaces[multispace.start()] = multispace.end() - multispace.start() - 1
""", """    removed_spaces.update(
        {m.start(): len(m.group(0)) - 1 for m in multispace_matches}
    )
""")]),
    ('scan with break', [('F', """    while x < len(docbody) and not section_ended:
        # save""", """    while x < len(docbody):
        if section_ended:
            break
        # save""")]),
    ('scan: early continue', [('F', """        if not section_ended:
            # Does this & the next 5 lines simply contain numbers? If yes, it's
""", """        if section_ended:
            continue
        if True:
            # Does this & the next 5 lines simply contain numbers? If yes, it's
""")]),
    ('find all: endless with break', [('T', """    listindex = []
    offset = 0
    i = string.find(sub, offset)
    while i >= 0:
        listindex.append(i)
        i = string.find(sub, i + 1)
    return listindex
""", """    listindex = []
    offset = 0
    while True:
        i = string.find(sub, offset)
        if i < 0:
            break
        listindex.append(i)
        offset = i + 1
    return listindex
""")]),
    ('find all: walrus', [('T', """    i = string.find(sub, offset)
    while i >= 0:
        listindex.append(i)
        i = string.find(sub, i + 1)
    return listindex
""", """    while (i := string.find(sub, offset)) >= 0:
        listindex.append(i)
        offset = i + 1
    return listindex
""")]),
    ('punctuation with bound', [('T', """        try:
            while line[pos] in (".", ":", "-", ")"):
                pos += 1
        except IndexError:
            # The match was at the very end of the line
            pass

        return pos
""", """        while pos < len(line) and line[pos] in (".", ":", "-", ")"):
            pos = pos + 1
        return pos
""")]),
    ('leading lines: index', [('E', """    while ref_sectn and (ref_sectn[0].isspace() or p_email.match(ref_sectn[0])):
        ref_sectn.pop(0)
    return ref_sectn
""", """    while ref_sectn:
        first = ref_sectn[0]
        if not first.isspace() and not p_email.match(first):
            break
        del ref_sectn[0]
    return ref_sectn
""")]),
    ('leading lines: slice', [('E', """    while ref_sectn and (ref_sectn[0].isspace() or p_email.match(ref_sectn[0])):
        ref_sectn.pop(0)
    return ref_sectn
""", """    def useless(line):
        return line.isspace() or p_email.match(line)

    while ref_sectn and useless(ref_sectn[0]):
        ref_sectn[:] = ref_sectn[1:]
    return ref_sectn
""")]),
    ('header lines: flag renamed, loop with break', [('DT', """    if num_breaks > 2:
        while keep_checking:
            cur_break = 1
""", """    if num_breaks > 2:
        while True:
            if not keep_checking:
                break
            cur_break = 1
""")]),
    ('blank lines: position helper', [('X', """            x += 1
            while x < len(ref_sect) and ref_sect[x].isspace():
                x += 1
            if x == len(ref_sect):
                # Blanks at end doc: dont count
                num_blanks -= 1
            x -= 1
        x += 1
""", """            x += 1
            while x < len(ref_sect) and ref_sect[x].isspace():
                x += 1
            if x == len(ref_sect):
                # Blanks at end doc: dont count
                num_blanks -= 1
            continue
        x += 1
""")]),
    ('tag loop: search at the top', [('E', """    while tag_match is not None:
        # While there are tags inside this reference line...
""", """    while True:
        # While there are tags inside this reference line...
        tag_match = re_tagged_citation.search(processed_line)
        if tag_match is None:
            break
"""), ('E', """
        # Look for the next tag in the processed line:
        tag_match = re_tagged_citation.search(processed_line)
""", "")]),
    ('tag loop: unusable tags return the text', [('E', """            (cur_misc_txt, processed_line) = convert_unusable_tag_to_misc(
                processed_line,
                cur_misc_txt,
                tag_match_end,
                CFG_REFEXTRACT_MARKER_CLOSING_SERIES,
            )
""", """            (more, processed_line) = convert_unusable_tag_to_misc(
                processed_line,
                "",
                tag_match_end,
                CFG_REFEXTRACT_MARKER_CLOSING_SERIES,
            )
            cur_misc_txt += more
""")]),
    ('escape in helper', [('X', r'''pattern = r"\(?\[?\d{0,4}\]?\)?\.?\s*%s\s*$" % re.escape(section_title)''', r'''escaped = re.escape(section_title)
    pattern = r"\(?\[?\d{0,4}\]?\)?\.?\s*" + escaped + r"\s*$"''')]),
    ('command built in steps', [('D', '''    cmd_pdftotext = [
        CFG_PATH_PDFTOTEXT,
        layout_option,
        "-q",
''', '''    options = ["-q"]
    cmd_pdftotext = [
        CFG_PATH_PDFTOTEXT,
        layout_option,
    ] + options + [
''')]),
    ('isbn by function', [('T', '    return re_isbn.sub(r"<cds.ISBN>\\g<code></cds.ISBN>", line)', '    def tagger(m):\n        return "<cds.ISBN>%s</cds.ISBN>" % m.group("code")\n\n    return re_isbn.sub(tagger, line)')]),
    ('journal patterns precomputed', [('K', '''        seek_ptn = re.compile(r"(?<!\\w)(%s)\\W" % re.escape(seek_phrase), re.UNICODE)''', '''        literal = re.escape(seek_phrase)
        seek_ptn = re.compile(f"(?<!\\\\w)({literal})\\\\W", re.UNICODE)''')]),
]

BUGS += [
    ('C17', 'isdigit page', [('E', 'if el["page"].isdecimal():', 'if el["page"].isdigit():')]),
    ('C17', 'page converted whatever it is', [('E', 'if el["page"].isdecimal():', 'if el["page"]:')]),
    ('C17', 'volume test not to the end', [('E', r'if re.match(r"\d{1,2}$", el["volume"]):', r'if re.match(r"\d{1,2}", el["volume"]):')]),
    ('C17', 'series absent', [('E', """                    if numeration_match.group("series"):
                        reference_volume = (
                            numeration_match.group("series") + reference_volume
                        )
""", """                    reference_volume = (
                        numeration_match.group("series") + reference_volume
                    )
""")]),
    ('C17', 'year absent', [('E', 'reference_year = numeration_match.group("yr") or ""', 'reference_year = numeration_match.group("yr").strip("()")')]),
    ('C17', 'pos group', [('T', """        try:
            year = match.group("year")
        except IndexError:
            # Extract year from volume name
            # which should always include the year
            g = re.search(re_pos_year_num, match.group("volume_num"), re.UNICODE)
            year = g.group(0)
""", """        year = match.group("year")
""")]),
    ('C17', 'arxiv suffix', [('T', """        if match.group("suffix"):
            groups["suffix"] = " " + groups["suffix"]
        else:
            groups["suffix"] = ""
""", """        groups["suffix"] = " " + groups["suffix"]
""")]),
    ('C17', 'pos year from name', [('T', 'g = re.search(re_pos_year_num, match.group("volume_num"), re.UNICODE)', 'g = re.search(re_pos_year_num, match.group("volume_name"), re.UNICODE)')]),
    ('C17', 'report match unchecked', [('E', """            m = re_report.match(el["report_num"])
            if m:
                name = m.group("name")""", """            m = re_report.match(el["report_num"])
            if el["report_num"]:
                name = m.group("name")""")]),
    ('C17', 'volume match unchecked', [('E', 'matches = volume_re.match(el["volume"])\n            if matches:\n', 'matches = volume_re.match(el["volume"])\n            if el["volume"]:\n')]),
    ('C17', 'unbound marknum', [('X', """            except ValueError:
                # If the mark is a unicode character category [Nd],
                # it is not always convertible to int by int()
                # We can't use its numerical value, but we still accept it
                # as numeration
                marknum = None
""", """            except ValueError:
                pass
""")]),
    ('C17', 'closing index unset', [('E', """                idx_closing_tag_nearest = processed_line.find(
                    CFG_REFEXTRACT_MARKER_CLOSING_AUTHOR_INCL, tag_match_end
                )
""", """                closing = processed_line.find(
                    CFG_REFEXTRACT_MARKER_CLOSING_AUTHOR_INCL, tag_match_end
                )
""")]),
    ('C16', 'ibid mask too short', [('T', '"_" * len(m_ibid.group(0))', '"_" * 4')]),
    ('C16', 'report number mask of whole match', [('T', '+ "_" * len(repnum_match.group(1))', '+ "_" * len(repnum_match.group(0))')]),
    ('C16', 'dois from the left', [('T', 'for match in reversed(list(matched_doi)):', 'for match in matched_doi:'), ('T', '    doi_strings.reverse()\n', '')]),
    ('C16', 'urls from the left', [('T', 'found_url_positions = sorted(found_url_urlstring.keys(), reverse=True)', 'found_url_positions = sorted(found_url_urlstring.keys())')]),
    ('C16', 'upper case of the line', [('T', """    working_line2 = "".join(
        char.upper() if len(char.upper()) == 1 else char for char in working_line2
    )
""", """    working_line2 = working_line2.upper()
""")]),
    ('C16', 'punctuation dropped', [('T', 'working_line2 = re_punctuation.sub(" ", working_line2)', 'working_line2 = re_punctuation.sub("", working_line2)')]),
    ('C16', 'tags masked by one character', [('T', '        line = re_tag.sub("_" * chars_count, line, count=1)', '        line = re_tag.sub("_" * min(chars_count, 12), line, count=1)')]),
    ('C16', 'all tags with the first length', [('T', 'line = re_tag.sub("_" * chars_count, line, count=1)', 'line = re_tag.sub("_" * chars_count, line)')]),
    ('C16', 'spaces within the title', [('T', """            spare_replacement_index += removed_spaces[space]
            extras += removed_spaces[space]
        elif (
            space >= spare_replacement_index
            and replacement_types[replacement_index] == "reportnumber\"""", """            spare_replacement_index += removed_spaces[space]
        elif (
            space >= spare_replacement_index
            and replacement_types[replacement_index] == "reportnumber\"""")]),
    ('C16', 'spaces: compared with the stripped index', [('T', '        if space < true_replacement_index:', '        if space < replacement_index:')]),
    ('C16', 'spaces: count includes the one kept', [('DT', 'multispace.end() - multispace.start() - 1', 'multispace.end() - multispace.start()')]),
    ('C16', 'journal by pattern: position not adapted', [('T', """        position -= sum(
            removed for space, removed in removed_spaces.items() if space < position
        )
""", "")]),
    ('C16', 'hdl from the left', [('E', 'for match in reversed(list(matched_hdl)):', 'for match in list(matched_hdl):')]),
    ('C16', 'publisher: extras forgotten, replacement length', [('T', 'startpos = true_replacement_index + len(matched_publisher) + extras', 'startpos = true_replacement_index + len(rebuilt_line)')]),
    ('C16', 'report number: replacement length', [('T', 'startpos = true_replacement_index + len_reportnum + extras', 'startpos = true_replacement_index + len(reportnum) + extras')]),
    ('C16', 'replacements in order of kind', [('T', 'replacement_locations = sorted(replacement_types.keys())', 'replacement_locations = list(replacement_types.keys())')]),
    ('C16', 'space runs by position in the new line', [('DT', """        removed_spaces[multispace.start()] = multispace.end() - multispace.start() - 1
""", """        removed_spaces[multispace.start() - sum(removed_spaces.values())] = (
            multispace.end() - multispace.start() - 1
        )
""")]),
    ('C18', 'solitary arxiv tag kept', [('E', """            if idx_closing_tag == -1:
                # no closing </cds.ARXIV> tag found -
                # strip the opening tag and move past this
                # recognised arXiv as it is unreliable:
                processed_line = processed_line[tag_match_end:]
                identified_citation_element = None
""", """            if idx_closing_tag == -1:
                identified_citation_element = None
""")]),
    ('C18', 'solitary title tag: from its start', [('E', """                # no closing TITLE tag found - get rid of the solitary tag
                processed_line = processed_line[tag_match_end:]
""", """                # no closing TITLE tag found - get rid of the solitary tag
                processed_line = processed_line[tag_match_start:]
""")]),
    ('C18', 'recid: no break', [('E', """                citation.append({"type": "RECID", "recid": el["recid"], "misc_txt": ""})
                break
""", """                citation.append({"type": "RECID", "recid": el["recid"], "misc_txt": ""})
""")]),
    ('C18', 'extra numeration not skipped', [('E', """                            )

                        # Skip past the matched numeration in the working line:
                        processed_line = processed_line[numeration_match.end() :]
""", """                            )

""")]),
    ('C18', 'section scan: only when no title', [('F', """                y += 1
            if not line_found:
""", """                    y += 1
            if not line_found:
""")]),
    ('C18', 'digit lines: blank lines', [('F', """                        digit_lines += 1
                    y = y + 1
""", """                        digit_lines += 1
                    if digit_test_str:
                        y = y + 1
""")]),
    ('C18', 'section scan: title without end', [('F', """                if num_digit_lines == digit_lines:
                    section_ended = True
            x += 1
""", """                if num_digit_lines == digit_lines:
                    section_ended = True
            if not end_match:
                x += 1
""")]),
    ('C18', 'blank lines: no step', [('X', """            if x == len(ref_sect):
                # Blanks at end doc: dont count
                num_blanks -= 1
            x -= 1
        x += 1
""", """            if x == len(ref_sect):
                # Blanks at end doc: dont count
                num_blanks -= 1
            else:
                x += 1
            x -= 1
""")]),
    ('C18', 'header lines: break not advanced when empty', [('DT', """                # Update cur_break for nxt line to check
                cur_break = cur_break + next_head
""", """                # Update cur_break for nxt line to check
                if not empty_line:
                    cur_break = cur_break + next_head
""")]),
    ('C18', 'header lines: empty lines are not counted', [('DT', """                num_header_lines = num_header_lines + 1
            empty_line = 0
""", """                if not empty_line:
                    num_header_lines = num_header_lines + 1
            empty_line = 0
""")]),
    ('C18', 'footer lines: not counted', [('DT', """                num_footer_lines = num_footer_lines + 1
            empty_line = 0
""", """                if not empty_line:
                    num_footer_lines = num_footer_lines + 1
            empty_line = 0
""")]),
    ('C18', 'leading lines: only blank ones removed', [('E', """        ref_sectn.pop(0)
    return ref_sectn
""", """        if ref_sectn[0].isspace():
            ref_sectn.pop(0)
    return ref_sectn
""")]),
    ('C18', 'punctuation: dash not passed', [('T', """            while line[pos] in (".", ":", "-", ")"):
                pos += 1
""", """            while line[pos] in (".", ":", "-", ")"):
                if line[pos] != "-":
                    pos += 1
""")]),
    ('C18', 'find all: same position', [('T', 'i = string.find(sub, i + 1)', 'i = string.find(sub, i)')]),
    ('C17', 'collaboration attribute', [('E', 'el["collaboration"]', 'el["collab"]')]),
    ('C17', 'author years', [('F', 'if m_num and m_num.group(0) == "1":', 'if m_num.group(0) == "1":')]),
]
