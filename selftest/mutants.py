"""(property, name, [(file, old, new), ...]) and behaviour-preserving edits"""
BUGS = [
    # ---- C01
    ('C01', 'remove only on success', [('A', '    finally:\n        os.remove(filepath)\n    return references', '    os.remove(filepath)\n    return references')]),
    ('C01', 'remove in except HTTPError only', [('A', '    finally:\n        os.remove(filepath)\n    return references', '    else:\n        os.remove(filepath)\n    return references')]),
    ('C01', 'get outside try', [('A', '    try:\n        req = requests.get(url=url, headers=headers, stream=True)\n', '    req = requests.get(url=url, headers=headers, stream=True)\n    try:\n')]),
    ('C01', 'fd not closed', [('A', '    os.close(filename)\n', '')]),
    ('C01', 'remove guarded by references', [('A', '    try:\n        req', '    references = None\n    try:\n        req'), ('A', '    finally:\n        os.remove(filepath)', '    finally:\n        if references:\n            os.remove(filepath)')]),
    # ---- C02
    ('C02', 'texkeys file not closed', [('P', '    with open(pdf_file, "rb") as pdf_stream:\n        try:\n            pdf = PdfReader(pdf_stream, strict=False)', '    pdf_stream = open(pdf_file, "rb")\n    if True:\n        try:\n            pdf = PdfReader(pdf_stream, strict=False)')]),
    ('C02', 'kb file not closed', [('K', '        with open(fpath, encoding="utf-8") as fh:\n            if reader:', '        fh = open(fpath, encoding="utf-8")\n        if True:\n            if reader:')]),
    ('C02', 'popen without with', [('D', '    with subprocess.Popen(cmd_pdftotext, stdout=subprocess.PIPE) as pipe_pdftotext:', '    pipe_pdftotext = subprocess.Popen(cmd_pdftotext, stdout=subprocess.PIPE)\n    if True:')]),
    ('C02', 'plain text readlines w/o with', [('E', '        with open(fpath, "r", encoding="utf-8") as f:\n            textbody = f.readlines()', '        f = open(fpath, "r", encoding="utf-8")\n        textbody = f.readlines()\n        f.close()')]),
    ('C02', 'mmap not closed on return', [('E', '''    with (
        open(filename, "r+b") as file,
        mmap.mmap(file.fileno(), 0, access=mmap.ACCESS_WRITE) as mmfile,
    ):
''', '''    with open(filename, "r+b") as file:
        mmfile = mmap.mmap(file.fileno(), 0, access=mmap.ACCESS_WRITE)
''')]),
    # ---- C03
    ('C03', 'exists instead of isfile', [('A', 'os.path.isfile(path)', 'os.path.exists(path)')]),
    ('C03', 'isfile check after reading', [('A', '''    if not os.path.isfile(path):
        raise FullTextNotAvailableError("File not found: '{0}'".format(path))

    docbody = get_plaintext_document_body(path)
''', '''    docbody = get_plaintext_document_body(path)
    if not os.path.isfile(path):
        raise FullTextNotAvailableError("File not found: '{0}'".format(path))
''')]),
    ('C03', 'no raise_for_status', [('A', '        req.raise_for_status()\n', '')]),
    ('C03', 'only 404', [('A', '        req.raise_for_status()\n', '        if req.status_code == 404:\n            req.raise_for_status()\n')]),
    ('C03', 'only 5xx passes', [('A', '        req.raise_for_status()\n', '        if req.status_code < 500:\n            req.raise_for_status()\n')]),
    ('C03', 'raise_for_status after the body', [('A', '        req.raise_for_status()\n        with open(filepath, "wb") as f:\n            for chunk in req.iter_content(chunk_size):\n                f.write(chunk)\n', '        with open(filepath, "wb") as f:\n            for chunk in req.iter_content(chunk_size):\n                f.write(chunk)\n        req.raise_for_status()\n')]),
    ('C03', 'text prefix', [('E', 'if mime_type == "text/plain":', 'if mime_type.startswith("text/"):')]),
    ('C03', 'pdf substring', [('E', 'elif mime_type == "application/pdf":', 'elif "pdf" in mime_type:')]),
    ('C03', 'octet stream', [('E', 'elif mime_type == "application/pdf":', 'elif mime_type in ("application/pdf", "application/octet-stream"):')]),
    ('C03', 'unknown type swallowed', [('E', '        raise UnknownDocumentTypeError(mime_type)\n', '        LOGGER.warning("unknown type %s", mime_type)\n')]),
    ('C03', 'HTTPError propagates', [('A', 'except requests.exceptions.HTTPError as exc:', 'except requests.exceptions.ConnectionError as exc:')]),
    ('C03', 'unknown type mapped to not available', [('E', 'raise UnknownDocumentTypeError(mime_type)', 'raise ValueError(mime_type)')]),
    # ---- C04
    ('C04', 'list: continue on empty', [('S', '''            else:
                extracted_references.append({"raw_ref": [reference]})
        except''', '''        except''')]),
    ('C04', 'list: extend', [('S', 'extracted_references.append(extracted_reference[0])', 'extracted_references.extend(extracted_reference)')]),
    ('C04', 'list: last', [('S', 'extracted_references.append(extracted_reference[0])', 'extracted_references.append(extracted_reference[-1])')]),
    ('C04', 'list: try around loop', [('S', '''    for reference in raw_references:
        try:
            extracted_reference = extract_references_from_string(
                reference,
                override_kbs_files=journal_dict,
                reference_format="{title},{volume},{page}",
            )
            if extracted_reference:
                extracted_references.append(extracted_reference[0])
            else:
                extracted_references.append({"raw_ref": [reference]})
        except Exception as e:
            LOGGER.error(f"Failed to extract reference: {reference}. Reason: {str(e)}")
            extracted_references.append({"raw_ref": [reference]})
''', '''    try:
        for reference in raw_references:
            extracted_reference = extract_references_from_string(
                reference,
                override_kbs_files=journal_dict,
                reference_format="{title},{volume},{page}",
            )
            if extracted_reference:
                extracted_references.append(extracted_reference[0])
            else:
                extracted_references.append({"raw_ref": [reference]})
    except Exception as e:
        LOGGER.error(f"Failed to extract reference: {reference}. Reason: {str(e)}")
        extracted_references.append({"raw_ref": [reference]})
''')]),
    ('C04', 'list: stale result', [('S', '''        except Exception as e:
            LOGGER.error(f"Failed to extract reference: {reference}. Reason: {str(e)}")
            extracted_references.append({"raw_ref": [reference]})
''', '''        except Exception as e:
            LOGGER.error(f"Failed to extract reference: {reference}. Reason: {str(e)}")
            extracted_references.append(
                extracted_reference[0] if extracted_references else {"raw_ref": [reference]}
            )
''')]),
    ('C04', 'list: narrow except', [('S', '''        except Exception as e:
            LOGGER.error(f"Failed to extract reference:''', '''        except (KeyError, ValueError) as e:
            LOGGER.error(f"Failed to extract reference:''')]),
    ('C04', 'list: stripped raw', [('S', '''            extracted_references.append({"raw_ref": [reference]})
    return''', '''            extracted_references.append({"raw_ref": [reference.strip()]})
    return''')]),
    ('C04', 'list: raw not list', [('S', '''            extracted_references.append({"raw_ref": [reference]})
    return''', '''            extracted_references.append({"raw_ref": reference})
    return''')]),
    ('C04', 'journal: skip', [('S', '''                extracted_publication_infos.append({})
                continue''', '''                continue''')]),
    ('C04', 'journal: None', [('S', '''            if not extracted_publication_info:
                extracted_publication_info = {}
''', '')]),
    ('C04', 'journal: only IndexError', [('S', '''    except Exception as e:
        LOGGER.error(f"Failed to extract publication''', '''    except LookupError as e:
        LOGGER.error(f"Failed to extract publication''')]),
    ('C04', 'text: returns empty', [('S', '''        LOGGER.error(f"an not extract references. Reason: {str(e)}")
        return None
''', '''        LOGGER.error(f"an not extract references. Reason: {str(e)}")
        extracted_references = []
''')]),
    ('C04', 'url: narrow', [('S', '''    except Exception as e:
        LOGGER.error(f"Can not''', '''    except OSError as e:
        LOGGER.error(f"Can not''')]),
    ('C04', 'journal: stop on first empty', [('S', '''                extracted_publication_infos.append({})
                continue''', '''                extracted_publication_infos.append({})
                break''')]),
    # ---- C06
    ('C06', 'inputs before load', [('K', '''            cache[kb_type] = load_kb_by_type(kb_type, kb)
            # Remember the input only once it is loaded, and as a copy: the
            # caller may modify it before the next call
            cache_inputs[kb_type] = (
                copy.deepcopy(kb) if isinstance(kb, (dict, list)) else kb
            )
''', '''            cache_inputs[kb_type] = (
                copy.deepcopy(kb) if isinstance(kb, (dict, list)) else kb
            )
            cache[kb_type] = load_kb_by_type(kb_type, kb)
''')]),
    ('C06', 'inputs not copied', [('K', '''            cache_inputs[kb_type] = (
                copy.deepcopy(kb) if isinstance(kb, (dict, list)) else kb
            )
''', '''            cache_inputs[kb_type] = kb
''')]),
    ('C06', 'cache by type only', [('K', 'if kb != cache_inputs.get(kb_type):', 'if kb_type not in cache_inputs:')]),
    ('C06', 'only overridden reloaded', [('K', '    for kb_type, kb in kbs.items():\n        if kb != ', '    for kb_type, kb in (custom_kbs or kbs).items():\n        if kb != ')]),
    ('C06', 'config updated in place', [('K', 'kbs = CFG_REFEXTRACT_KBS.copy()', 'kbs = CFG_REFEXTRACT_KBS')]),
    ('C06', 'journals kb altered', [('T', 'standardised_titles = dict(kbs["journals"][1])', 'standardised_titles = kbs["journals"][1]')]),
    ('C06', 'module level last journal', [('T', 'def add_tagged_journal_in_place_of_IBID(previous_match):', '''LAST = {}


def add_tagged_journal_in_place_of_IBID(previous_match):
    LAST["title"] = previous_match["title"]''')]),
    ('C06', 'sorted in place', [('T', 'def identify_report_numbers(line, kb_reports):', '''def identify_report_numbers(line, kb_reports):
    kb_reports[0][line] = None''')]),
    ('C06', 'global line counter text', [('X', '    def prepare_ref(working_ref):', '''    global _LAST_REF
    _LAST_REF = ref_sectn[-1]

    def prepare_ref(working_ref):''')]),
    ('C06', 'books pop', [('E', '''def look_for_undetected_books(splitted_citations, kbs):
''', '''def look_for_undetected_books(splitted_citations, kbs):
    kbs["books"].pop("", None)
''')]),
    # ---- C07
    ('C07', 'pop items', [('S', '''    for reference in raw_references:
''', '''    while raw_references:
        reference = raw_references.pop(0)
''')]),
    ('C07', 'pubinfo normalised in place', [('S', '''            extracted_publication_info = extract_journal_reference(
''', '''            publication_info["pubinfo_freetext"] = publication_info[
                "pubinfo_freetext"
            ].strip()
            extracted_publication_info = extract_journal_reference(
''')]),
    ('C07', 'override popped', [('K', '''    if custom_kbs:
        kbs.update({kb_type: kb for (kb_type, kb) in custom_kbs.items() if kb})
''', '''    if custom_kbs:
        for kb_type in list(custom_kbs):
            if not custom_kbs[kb_type]:
                del custom_kbs[kb_type]
        kbs.update(custom_kbs)
''')]),
    ('C07', 'headers default agent', [('A', '''    # Get temporary filepath to download to
''', '''    if headers is not None:
        headers.setdefault("User-Agent", "refextract")
''')]),
    ('C07', 'reference lines stripped in place', [('E', '''def parse_references_elements(ref_sect, kbs, linker_callback=None):
''', '''def parse_references_elements(ref_sect, kbs, linker_callback=None):
    for i, line in enumerate(ref_sect):
        ref_sect[i] = line.strip()
''')]),
    ('C07', 'journals kb list sorted', [('K', '''    kb = {}
    standardised_titles = {}
    seek_phrases = []
''', '''    kb = {}
    standardised_titles = {}
    seek_phrases = []
    if isinstance(knowledgebase, list):
        knowledgebase.sort()
''')]),
    ('C07', 'book row extended', [('E', '''def look_for_undetected_books(splitted_citations, kbs):
''', '''def look_for_undetected_books(splitted_citations, kbs):
    for book in kbs["books"].values():
        book.append("")
''')]),
    ('C07', 'journal dict completed', [('S', '''def extract_references_from_text(text, journal_kb_data):
''', '''def extract_references_from_text(text, journal_kb_data):
    journal_kb_data.pop("", None)
''')]),
    # ---- C10
    ('C10', 'kb cached on disk', [('K', '''def load_kb_from_iterable(kb, builder):
''', '''def load_kb_from_iterable(kb, builder):
    with open("/tmp/refextract.kb", "w", encoding="utf-8") as out:
        out.write(str(kb))
''')]),
    ('C10', 'retry', [('A', '''        req = requests.get(url=url, headers=headers, stream=True)
''', '''        req = requests.get(url=url, headers=headers, stream=True)
        if req.status_code == 503:
            req = requests.get(url=url, headers=headers, stream=True)
''')]),
    ('C10', 'retry loop', [('A', '''        req = requests.get(url=url, headers=headers, stream=True)
''', '''        for _attempt in range(3):
            req = requests.get(url=url, headers=headers, stream=True)
            if req.status_code < 500:
                break
''')]),
    ('C10', 'doi resolved', [('T', '''def identify_and_tag_DOI(line):
''', '''def identify_and_tag_DOI(line):
    import requests
    requests.head("https://doi.org")
''')]),
    ('C10', 'string via file', [('A', '''    docbody = source.split("\\n")
    if not''', '''    fd, name = mkstemp()
    os.write(fd, source.encode())
    os.close(fd)
    with open(name) as fh:
        docbody = fh.read().split("\\n")
    os.remove(name)
    if not''')]),
    ('C10', 'remove document', [('A', '''    parsed_refs, stats = parse_references(
        reflines,
        recid=recid,
        reference_format=reference_format,
        linker_callback=linker_callback,
        override_kbs_files=override_kbs_files,
    )

    if magic''', '''    parsed_refs, stats = parse_references(
        reflines,
        recid=recid,
        reference_format=reference_format,
        linker_callback=linker_callback,
        override_kbs_files=override_kbs_files,
    )
    if not parsed_refs:
        os.remove(path)

    if magic''')]),
    ('C10', 'text dump', [('D', '''    with subprocess.Popen(''', '''    open("/tmp/last.txt", "w").close()
    with subprocess.Popen(''')]),
]
REFACTORINGS = [
    ('helper for download', [('A', '''        with open(filepath, "wb") as f:
            for chunk in req.iter_content(chunk_size):
                f.write(chunk)
''', '''        _save(req, filepath, chunk_size)
'''), ('A', '''def extract_references_from_url(''', '''def _save(response, target, size):
    with open(target, "wb") as handle:
        for piece in response.iter_content(size):
            handle.write(piece)


def extract_references_from_url(''')]),
    ('isfile via pathlib', [('A', 'if not os.path.isfile(path):', 'if not Path(path).is_file():'), ('A', 'import os\n', 'import os\nfrom pathlib import Path\n')]),
    ('reader dispatch', [('E', '''    if mime_type == "text/plain":
        with open(fpath, "r", encoding="utf-8") as f:
            textbody = f.readlines()
    elif mime_type == "application/pdf":
        textbody = convert_PDF_to_plaintext(fpath, keep_layout)
    else:
        raise UnknownDocumentTypeError(mime_type)

    return textbody
''', '''    readers = {
        "text/plain": lambda: _read_text(fpath),
        "application/pdf": lambda: convert_PDF_to_plaintext(fpath, keep_layout),
    }
    if mime_type not in readers:
        raise UnknownDocumentTypeError(mime_type)
    textbody = readers[mime_type]()
    return textbody


def _read_text(fpath):
    with open(fpath, "r", encoding="utf-8") as f:
        return f.readlines()
''')]),
    ('reader early raise', [('E', '''    if mime_type == "text/plain":
        with open(fpath, "r", encoding="utf-8") as f:
            textbody = f.readlines()
    elif mime_type == "application/pdf":
        textbody = convert_PDF_to_plaintext(fpath, keep_layout)
    else:
        raise UnknownDocumentTypeError(mime_type)
''', '''    if mime_type not in ("text/plain", "application/pdf"):
        raise UnknownDocumentTypeError(mime_type)
    if mime_type == "text/plain":
        f = open(fpath, "r", encoding="utf-8")
        try:
            textbody = [line for line in f]
        finally:
            f.close()
    else:
        textbody = convert_PDF_to_plaintext(fpath, keep_layout)
''')]),
    ('raise_for_status via ok', [('A', '        req.raise_for_status()\n', '        if not req.ok:\n            req.raise_for_status()\n')]),
    ('popen try finally', [('D', '''    with subprocess.Popen(cmd_pdftotext, stdout=subprocess.PIPE) as pipe_pdftotext:
''', '''    process = subprocess.Popen(cmd_pdftotext, stdout=subprocess.PIPE)
    with process as pipe_pdftotext:
''')]),
    ('list helper', [('S', '''    for reference in raw_references:
        try:
            extracted_reference = extract_references_from_string(
                reference,
                override_kbs_files=journal_dict,
                reference_format="{title},{volume},{page}",
            )
            if extracted_reference:
                extracted_references.append(extracted_reference[0])
            else:
                extracted_references.append({"raw_ref": [reference]})
        except Exception as e:
            LOGGER.error(f"Failed to extract reference: {reference}. Reason: {str(e)}")
            extracted_references.append({"raw_ref": [reference]})
    return {"extracted_references": extracted_references}
''', '''    for reference in raw_references:
        extracted_references.append(_one(reference, journal_dict))
    return {"extracted_references": extracted_references}


def _one(reference, journal_dict):
    fallback = {"raw_ref": [reference]}
    try:
        found = extract_references_from_string(
            reference,
            override_kbs_files=journal_dict,
            reference_format="{title},{volume},{page}",
        )
    except Exception as e:
        LOGGER.error(f"Failed to extract reference: {reference}. Reason: {str(e)}")
        return fallback
    return found[0] if found else fallback
''')]),
    ('list comprehension', [('S', '''    for reference in raw_references:
        try:
            extracted_reference = extract_references_from_string(
                reference,
                override_kbs_files=journal_dict,
                reference_format="{title},{volume},{page}",
            )
            if extracted_reference:
                extracted_references.append(extracted_reference[0])
            else:
                extracted_references.append({"raw_ref": [reference]})
        except Exception as e:
            LOGGER.error(f"Failed to extract reference: {reference}. Reason: {str(e)}")
            extracted_references.append({"raw_ref": [reference]})
    return {"extracted_references": extracted_references}
''', '''    extracted_references = [_one(reference, journal_dict) for reference in raw_references]
    return {"extracted_references": extracted_references}


def _one(reference, journal_dict):
    found = []
    try:
        found = extract_references_from_string(
            reference,
            override_kbs_files=journal_dict,
            reference_format="{title},{volume},{page}",
        )
    except Exception as e:
        LOGGER.error(f"Failed to extract reference: {reference}. Reason: {str(e)}")
    return next(iter(found), None) or dict(raw_ref=[reference])
''')]),
    ('journal info or', [('S', '''            if not publication_info.get("pubinfo_freetext"):
                extracted_publication_infos.append({})
                continue
            extracted_publication_info = extract_journal_reference(
                publication_info["pubinfo_freetext"],
                override_kbs_files=journal_dict,
            )
            if not extracted_publication_info:
                extracted_publication_info = {}
            extracted_publication_infos.append(extracted_publication_info)
''', '''            freetext = publication_info.get("pubinfo_freetext")
            found = None
            if freetext:
                found = extract_journal_reference(freetext, override_kbs_files=journal_dict)
            extracted_publication_infos.append(found or {})
''')]),
    ('get_kbs helper', [('K', '''    for kb_type, kb in kbs.items():
        if kb != cache_inputs.get(kb_type):
            cache[kb_type] = load_kb_by_type(kb_type, kb)
            # Remember the input only once it is loaded, and as a copy: the
            # caller may modify it before the next call
            cache_inputs[kb_type] = (
                copy.deepcopy(kb) if isinstance(kb, (dict, list)) else kb
            )
    return cache.copy()
''', '''    for kb_type in kbs:
        _refresh(kb_type, kbs[kb_type], cache, cache_inputs)
    return dict(cache)


def _refresh(kb_type, kb, cache, cache_inputs):
    if kb_type in cache_inputs and cache_inputs[kb_type] == kb:
        return
    loaded = load_kb_by_type(kb_type, kb)
    cache.update({kb_type: loaded})
    cache_inputs[kb_type] = copy.deepcopy(kb)
''')]),
    ('memo', [('T', '''def strip_tags(line):
''', '''_MEMO = {}


def _memo_strip(line):
    if line not in _MEMO:
        _MEMO[line] = line.strip()
    return _MEMO[line]


def strip_tags(line):
    _memo_strip(line)
''')]),
    ('lazy global', [('DT', '''def wash_line(line):
''', '''_SPACES = None


def _spaces():
    global _SPACES
    if _SPACES is None:
        _SPACES = re.compile(r"\\s+")
    return _SPACES


def wash_line(line):
    _spaces()
''')]),
    ('copyfileobj', [('A', '''            for chunk in req.iter_content(chunk_size):
                f.write(chunk)
''', '''            f.writelines(req.iter_content(chunk_size))
''')]),
    ('session', [('A', '''        req = requests.get(url=url, headers=headers, stream=True)
''', '''        session = requests.Session()
        req = session.get(url=url, headers=headers, stream=True)
''')]),
]

from mutants2 import BUGS as _B2, REFACTORINGS as _R2  # noqa: E402
BUGS += _B2
REFACTORINGS += _R2
from mutants3 import BUGS as _B3, REFACTORINGS as _R3  # noqa: E402
BUGS += _B3
REFACTORINGS += _R3
from mutants4 import BUGS as _B4, REFACTORINGS as _R4  # noqa: E402
BUGS += _B4
REFACTORINGS += _R4
from mutants5 import BUGS as _B5, REFACTORINGS as _R5  # noqa: E402
BUGS += _B5
REFACTORINGS += _R5
