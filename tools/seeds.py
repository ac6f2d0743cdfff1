"""(id, property, needs, what it breaks, edits, demo.py) of the planted bugs."""
SEEDS = []


def seed(sid, prop, needs, breaks, edits, demo):
    SEEDS.append((sid, prop, needs, breaks, edits, demo))


seed('c01-dropped-connection', 'C01', 'the connection drops (not an HTTP status error) while the document is fetched',
     'the temporary download is removed on success and on an HTTP error only, so a dropped connection leaves it behind',
     [('A', '''        raise FullTextNotAvailableError(f"URL not found: '{url}'") from exc
    finally:
        os.remove(filepath)
    return references
''', '''        os.remove(filepath)
        raise FullTextNotAvailableError(f"URL not found: '{url}'") from exc
    os.remove(filepath)
    return references
''')], '''
import os, shutil, sys, tempfile
import requests
scratch = tempfile.mkdtemp()
tempfile.tempdir = scratch
try:
    import refextract.references.api as api

    class Response:
        def raise_for_status(self):
            pass

        def iter_content(self, size):
            yield b"abc"
            raise requests.exceptions.ChunkedEncodingError("connection dropped")

    api.requests.get = lambda **kw: Response()
    try:
        api.extract_references_from_url("http://example.org/a.pdf")
    except requests.exceptions.RequestException:
        pass
    left = os.listdir(scratch)
finally:
    shutil.rmtree(scratch)
if left:
    sys.exit("left behind: %s" % left)
''')

seed('c02-malformed-pdf-stream', 'C02', 'a PDF whose structure cannot be read by the PDF library',
     'the PDF opened for the link lookup is closed on the normal path only; a malformed PDF leaves it open',
     [('P', '''    with open(pdf_file, "rb") as pdf_stream:
        try:
            pdf = PdfReader(pdf_stream, strict=False)
''', '''    pdf_stream = open(pdf_file, "rb")
    if pdf_stream:
        try:
            pdf = PdfReader(pdf_stream, strict=False)
''')], '''
import builtins, os, shutil, sys, tempfile
scratch = tempfile.mkdtemp()
opened = []
real = builtins.open


def spy(*a, **k):
    f = real(*a, **k)
    opened.append(f)
    return f


try:
    from refextract.references.pdf import extract_texkeys_and_urls_from_pdf
    bad = os.path.join(scratch, "bad.pdf")
    with real(bad, "wb") as f:
        f.write(b"%PDF-1.4\\nnothing that a PDF reader understands\\n%%EOF\\n")
    builtins.open = spy
    try:
        extract_texkeys_and_urls_from_pdf(bad)
    except Exception as e:
        print("raised", type(e))
    builtins.open = real
    bad_open = [f for f in opened if not f.closed]
finally:
    shutil.rmtree(scratch)
if bad_open:
    sys.exit("still open: %s" % bad_open)
''')

seed('c03-body-before-status', 'C03', 'a URL answering with an HTTP error status and a large or endless error body',
     'the error body is downloaded before the HTTP status is looked at',
     [('A', '''        req.raise_for_status()
        with open(filepath, "wb") as f:
            for chunk in req.iter_content(chunk_size):
                f.write(chunk)
''', '''        with open(filepath, "wb") as f:
            for chunk in req.iter_content(chunk_size):
                f.write(chunk)
        req.raise_for_status()
''')], '''
import sys
import requests
import refextract.references.api as api
from refextract.references.errors import FullTextNotAvailableError
read = []


class Response(requests.Response):
    def __init__(self):
        super().__init__()
        self.status_code = 503

    def iter_content(self, size=1, **kw):
        read.append(size)
        yield b"Service unavailable"


api.requests.get = lambda **kw: Response()
try:
    api.extract_references_from_url("http://example.org/a.pdf")
    sys.exit("no error reported")
except FullTextNotAvailableError:
    pass
if read:
    sys.exit("the body of an error response was read")
''')

seed('c03-any-application-type', 'C03', 'a file whose detected type is a binary application type other than PDF, such as a ZIP archive',
     'every application/* document is handed to the PDF converter instead of being refused',
     [('E', '    elif mime_type == "application/pdf":\n', '    elif mime_type.split("/")[0] == "application":\n')], '''
import os, shutil, sys, tempfile, zipfile
import refextract.references.api as api
from refextract.references.errors import UnknownDocumentTypeError
scratch = tempfile.mkdtemp()
try:
    p = os.path.join(scratch, "a.pdf")
    with zipfile.ZipFile(p, "w") as z:
        z.writestr("x", "y" * 200)
    try:
        api.extract_references_from_file(p)
        sys.exit("a ZIP archive was accepted")
    except UnknownDocumentTypeError:
        pass
finally:
    shutil.rmtree(scratch)
''')

STRING = '''
import sys
from refextract import extract_references_from_string as parse


def check(ok, *what):
    if not ok:
        sys.exit("violated: " + " ".join(map(str, what)))
'''

seed('c04-one-entry-per-item', 'C04', 'a raw reference that cites two papers, so that it is split into two citations',
     'every citation of an item is appended, so the answer has more entries than the input and later entries are shifted',
     [('S', 'extracted_references.append(extracted_reference[0])', 'extracted_references.extend(extracted_reference)')], '''
import sys
from refextract.extract import extract_references_from_list
refs = ["A. Einstein, Phys. Rev. D 12, 34 (1990); B. Bohr, Phys. Lett. B 11, 22 (1991)", "C. Curie, unpublished"]
kb = [("PHYS REV D", "Phys.Rev.D"), ("PHYS LETT B", "Phys.Lett.B")]
out = extract_references_from_list(refs, kb)["extracted_references"]
if [r["raw_ref"] for r in out] != [[r] for r in refs]:
    sys.exit("entries for %s" % [r["raw_ref"] for r in out])
''')

seed('c04-first-empty-ends', 'C04', 'a list of publication infos in which an item in the middle has no free text',
     'the first item without free text ends the loop, so later items get no entry',
     [('S', '''                extracted_publication_infos.append({})
                continue''', '''                extracted_publication_infos.append({})
                break''')], '''
import sys
from refextract.extract import extract_journal_info as extract
infos = [{"pubinfo_freetext": "Phys. Rev. 12, 34 (1990)"}, {"journal_title": "x"}, {"pubinfo_freetext": "Phys. Rev. 13, 35 (1991)"}]
out = extract(infos, [("PHYS REV", "Phys.Rev.")])["extracted_publication_infos"]
if len(out) != 3:
    sys.exit("%d entries for 3 items" % len(out))
''')

MERGE = '''
import sys
import refextract.references.api as api
refs, links = %s
api.os.path.isfile = lambda p: True
api.get_plaintext_document_body = lambda *a, **k: []
api.extract_references_from_fulltext = lambda d: (["x"], 0, 0)
api.parse_references = lambda *a, **k: (refs, {})
api.magic.from_file = lambda *a, **k: "application/pdf"
api.extract_texkeys_and_urls_from_pdf = lambda p: links
out = api.extract_references_from_file("a.pdf")
'''
seed('c05-surplus-targets', 'C05', 'a PDF in which more link targets than references are found',
     'link data is merged although there are more targets than references, so references get the data of another one',
     [('A', 'if len(extracted_texkeys_urls) == len(parsed_refs):', 'if parsed_refs and len(extracted_texkeys_urls) >= len(parsed_refs):')],
     MERGE % '[{"raw_ref": ["a"]}], [{"texkey": "B:2000ab"}, {"texkey": "C:2000ab"}]' + '''
if out != [{"raw_ref": ["a"]}]:
    sys.exit("merged: %s" % out)
''')

seed('c05-narrow-handler', 'C05', 'a PDF whose structure makes the PDF library raise something other than a key or value error',
     'only key and value errors of the PDF library are caught, so another malformed structure aborts the extraction',
     [('P', '        except Exception:\n            LOGGER.debug("PDF: Internal pypdf error', '        except (KeyError, ValueError):\n            LOGGER.debug("PDF: Internal pypdf error')], '''
import os, shutil, sys, tempfile
from refextract.references.pdf import extract_texkeys_and_urls_from_pdf
scratch = tempfile.mkdtemp()
try:
    bad = os.path.join(scratch, "bad.pdf")
    with open(bad, "wb") as f:
        f.write(b"%PDF-1.4\\nnothing that a PDF reader understands\\n%%EOF\\n")
    try:
        out = extract_texkeys_and_urls_from_pdf(bad)
    except Exception as e:
        sys.exit("raised %r" % e)
finally:
    shutil.rmtree(scratch)
if out != []:
    sys.exit(str(out))
''')

seed('c06-ibid-of-an-earlier-line', 'C06', 'a line that starts with ibid, parsed after a line that cites a journal',
     'the journal an ibid refers to is kept between lines, so a line starting with ibid gets the journal of an earlier line or document',
     [('T', '    previous_match = {}', '    previous_match = PREVIOUS'),
      ('T', '            previous_match = {"title": title, "series": None}\n', '            previous_match.update({"title": title, "series": None})\n'),
      ('T', 'def process_reference_line(', 'PREVIOUS = {}\n\n\ndef process_reference_line(')], STRING + '''
kb = {"journals": [("FOO BAR", "Foo Bar J.")]}
line = "[1] ibid. 12 (1990) 34"
before = parse(line, override_kbs_files=kb)
parse("[1] A. Einstein, Foo Bar 12 (1990) 34", override_kbs_files=kb)
after = parse(line, override_kbs_files=kb)
check(before == after, before, after)
''')

seed('c07-free-text-normalised', 'C07', 'a caller that uses its publication infos after the call, with blanks around the free text',
     'the free text is stripped in the caller\'s own dictionary',
     [('S', '''            extracted_publication_info = extract_journal_reference(
''', '''            publication_info["pubinfo_freetext"] = publication_info["pubinfo_freetext"].strip()
            extracted_publication_info = extract_journal_reference(
''')], '''
import copy, sys
from refextract.extract import extract_journal_info as extract
infos = [{"pubinfo_freetext": " Phys. Rev. 12, 34 (1990) "}]
saved = copy.deepcopy(infos)
extract(infos, [("PHYS REV", "Phys.Rev.")])
if infos != saved:
    sys.exit("modified: %s" % infos)
''')

seed('c07-empty-override-dropped', 'C07', 'an override mapping with an empty entry, reused by the caller',
     'empty entries are deleted from the override mapping of the caller',
     [('K', '''        kbs.update({kb_type: kb for (kb_type, kb) in custom_kbs.items() if kb})
''', '''        for kb_type in [name for name, kb in custom_kbs.items() if not kb]:
            custom_kbs.pop(kb_type)
        kbs.update(custom_kbs)
''')], STRING + '''
kb = {"journals": [("FOO BAR", "Foo Bar J.")], "authors": ""}
parse("[1] A. Einstein, Foo Bar 12 (1990) 34", override_kbs_files=kb)
check("authors" in kb, kb)
''')

seed('c08-unordered-urls', 'C08', 'a reference with at least two URLs in a PDF with link targets, compared over processes with different hash seeds',
     'URLs are made unique with a set, so their order follows the hash seed',
     [('A', '                    ref["url"] = dedupe_list(ref["url"])', '                    ref["url"] = list(set(ref["url"]))')], '''
import os, subprocess, sys
if len(sys.argv) == 1:
    outs = set()
    for n in range(12):
        outs.add(subprocess.run([sys.executable, sys.argv[0], "x"], env=dict(os.environ, PYTHONHASHSEED=str(n)),
                                stdout=subprocess.PIPE, check=True).stdout)
    sys.exit("%d different answers" % len(outs) if len(outs) != 1 else 0)
''' + MERGE % '[{"raw_ref": ["a"], "url": ["http://a", "http://b", "http://c"]}], [{"texkey": "B:2000ab", "urls": ["http://d"]}]' + 'print(out)\n')

seed('c09-title-as-pattern', 'C09', 'a document whose reference section title contains a character that is special in a regular expression, on the line of the first reference',
     'the title text found in the document is used as a pattern',
     [('F', '    title = re.escape(title)\n', '    title = title.strip()\n')], '''
import sys
from refextract.references.find import find_numeration_in_title
try:
    found = find_numeration_in_title(["References[ [1] A. Einstein, Phys. Rev."], "References[")
except Exception as e:
    sys.exit("raised %r" % e)
''')

seed('c09-footer-title', 'C09', 'a section title with a regular-expression special character, repeated as the footer of a page',
     'the footer pattern is built from the unescaped section title',
     [('X', '% re.escape(section_title)', '% section_title.strip()')], '''
import sys
from refextract.references.text import strip_footer
out = strip_footer(["[1] A. Einstein", "12 References.", "12 Referencesx"], "References.")
if out != ["[1] A. Einstein", "12 Referencesx"]:
    sys.exit(str(out))
''')

seed('c10-second-request', 'C10', 'a server that answers the first request with 503',
     'the URL is requested a second time after a 503 answer',
     [('A', '        req = requests.get(url=url, headers=headers, stream=True)\n', '''        req = requests.get(url=url, headers=headers, stream=True)
        if req.status_code == 503:
            req = requests.get(url=url, headers=headers, stream=True)
''')], '''
import sys
import requests
import refextract.references.api as api
calls = []


class Response(requests.Response):
    def __init__(self):
        super().__init__()
        self.status_code = 503


def get(**kw):
    calls.append(kw)
    return Response()


api.requests.get = get
try:
    api.extract_references_from_url("http://example.invalid/a.pdf")
except Exception:
    pass
if len(calls) != 1:
    sys.exit("%d requests" % len(calls))
''')

seed('c11-atlas-report-tag', 'C11', 'an ATLAS conference note with a two-digit year',
     'the report number of an ATLAS note is tagged with a name the line parser does not know, so markup stays in the output',
     [('T', r'<cds.REPORTNUMBER>ATL-CONF-\g<code></cds.REPORTNUMBER>', r'<cds.REPNUMBER>ATL-CONF-\g<code></cds.REPNUMBER>')], STRING + '''
for text in ("ATL-CONF-2010-012", "ATLAS-CONF-2010-012", "ATL-CONF-2007-012", "ATLAS-CONF-2008-001"):
    out = parse("[1] A. Einstein, %s, 1990" % text)
    check("cds." not in str(out), out)
''')

seed('c11-publisher-unknown', 'C11', 'a line naming a publisher of the knowledge base',
     'the line parser does not look for publisher tags, so they stay in the output',
     [('RE', '          |PUBLISHER             ## or a PUBLISHER tag\n', '')], STRING + '''
out = parse("[1] A. Einstein, The theory of things, Springer, 1990, hep-th/9711200")
check("cds." not in str(out), out)
''')

seed('c12-handle-with-prefix', 'C12', 'a handle written as a URL',
     'a handle found as a URL is reported with the address of the resolver instead of its identifier',
     [('E', '                el["hdl_id"] = match.group("hdl_id")\n                del', '                el["hdl_id"] = match.group(0)\n                del')], STRING + '''
out = parse("[1] A. Einstein, http://hdl.handle.net/2128/5291, 1990")
check(out[0].get("hdl") == ["hdl:2128/5291"], out)
''')

seed('c13-tabs-in-raw-text', 'C13', 'a reference line containing a tab',
     'tabs are expanded before parsing, so the raw text differs from the line',
     [('E', '    for ref_line in ref_sect:\n', '    for ref_line in (line.expandtabs(4) for line in ref_sect):\n')], '''
import sys
from refextract.references.engine import parse_references
line = "[1] A. Einstein,\\tPhys. Rev. D 12, 34 (1990)"
refs, stats = parse_references([line])
if [r["raw_ref"] for r in refs] != [[line]]:
    sys.exit(str([r["raw_ref"] for r in refs]))
''')

seed('c14-options-lost-in-second-pass', 'C14', 'a document whose references are only found when it is converted keeping its layout',
     'the second pass over a document drops the caller\'s format, callback and overrides',
     [('A', '''        docbody = get_plaintext_document_body(path, keep_layout=True)
        reflines, dummy, dummy = extract_references_from_fulltext(docbody)
''', '''        docbody = get_plaintext_document_body(path, keep_layout=True)
        reflines, dummy, dummy = extract_references_from_fulltext(docbody)
        return parse_references(reflines, recid=recid)[0]
''')], '''
import sys
import refextract.references.api as api
api.os.path.isfile = lambda p: True
api.get_plaintext_document_body = lambda p, keep_layout=False: [keep_layout]
api.extract_references_from_fulltext = lambda d: (["[1] A. Einstein, Phys. Rev. D 12, 34 (1990)"] if d[0] else [], 0, 0)
api.magic.from_file = lambda *a, **k: "text/plain"
out = api.extract_references_from_file("a.txt", reference_format="{volume}:{page}")
if out[0].get("journal_reference") != ["12:34"]:
    sys.exit(str(out))
''')

seed('c15-second-semicolon', 'C15', 'text with two semicolons between two recognised items',
     'only the text before the first and after the last semicolon is kept',
     [('E', '                misc, el["misc_txt"] = el["misc_txt"].split(";", 1)\n', '                parts = el["misc_txt"].split(";")\n                misc, el["misc_txt"] = parts[0], parts[-1]\n')], STRING + '''
out = parse("[1] hep-th/9711200, erratum one; middle text here; erratum two, hep-th/9711201")
check("middle text here" in str([r.get("misc") for r in out]), out)
''')

seed('c15-line-limit', 'C15', 'a reference broken over exactly the maximum number of lines',
     'the last permitted line of a reference is dropped',
     [('X', 'working_ref[:CFG_REFEXTRACT_MAX_LINES]', 'working_ref[: CFG_REFEXTRACT_MAX_LINES - 1]')], '''
import sys
from refextract.references.config import CFG_REFEXTRACT_MAX_LINES as n
from refextract.references.text import rebuild_reference_lines
out = rebuild_reference_lines(["[1] line0"] + ["line%d" % i for i in range(1, n)], r"^\\s*(?P<mark>\\[\\s*(?P<marknum>\\d+)\\s*\\])")
if "line%d" % (n - 1) not in out[0]:
    sys.exit(str(out))
''')

seed('c16-short-mask', 'C16', 'an ibid written with a hyphen or a full stop, followed by another item',
     'the mask over an ibid is shorter than the text it hides, so later positions point before their text',
     [('T', '"_" * len(m_ibid.group(0)) + line', '"_" * len(m_ibid.group(0).strip("-.")) + line')], '''
import sys
from refextract.references.tag import identify_ibids
from refextract.references.regexs import re_ibid
line = "A EINSTEIN PHYS REV 12 34 IBID. 13 35 1991 SPRINGER"
found, out = identify_ibids(line)
if len(out) != len(line) or out.find("SPRINGER") != line.find("SPRINGER"):
    sys.exit("%r %r" % (line, out))
''')

seed('c16-urls-left-to-right', 'C16', 'a line with two URLs and text behind the second',
     'URLs are replaced from left to right with the positions of the line before the replacements',
     [('T', 'found_url_positions = sorted(found_url_urlstring.keys(), reverse=True)', 'found_url_positions = sorted(found_url_urlstring.keys())')], STRING + '''
out = parse("[1] A. Einstein, http://a.org/bcdefgh, and http://b.org/cdefghi in Copenhagen")
check("in Copenhagen" in str([r.get("misc") for r in out]) and "cds." not in str(out), out)
''')

seed('c17-journal-without-year', 'C17', 'a journal of the special list cited with volume and page but no year',
     'an absent year stays None and the volume of the special journal is built from it',
     [('E', '                    reference_year = numeration_match.group("yr") or ""\n', '                    reference_year = numeration_match.group("yr")\n')], STRING + '''
kb = {"journals": [("JHEP", "JHEP")]}
for text in ("JHEP 01, 12", "JHEP 5 123", "JHEP 01 (2003) 12"):
    try:
        parse("[1] A. Einstein, " + text, override_kbs_files=kb)
    except Exception as e:
        sys.exit("%s: %r" % (text, e))
''')

seed('c18-find-all', 'C18', 'a sought text of a single character that occurs in the searched text',
     'the search continues at the end of the match minus one, which is the same position for a single character',
     [('T', '        i = string.find(sub, i + 1)\n', '        i = string.find(sub, i + len(sub) - 1)\n')], '''
import signal, sys
from refextract.references.tag import find_all
signal.alarm(20)
if find_all("aXbXc", "X") != [1, 3]:
    sys.exit("wrong")
''')

seed('c19-separated-collaborations', 'C19', 'a citation naming a collaboration, another one, and the first again',
     'a collaboration is only compared with the one before it',
     [('E', '                    collabs.append(el["collaboration"])\n', '                    collabs = [el["collaboration"]]\n')], '''
import sys
from refextract.references.engine import remove_duplicated_collaborations
c = [{"type": "COLLABORATION", "collaboration": n, "misc_txt": t} for n, t in (("ATLAS", ""), ("CMS", ","), ("ATLAS", ";"))]
out = remove_duplicated_collaborations([c])
if [e["collaboration"] for e in out[0]] != ["ATLAS", "CMS"]:
    sys.exit(str(out))
''')

seed('c19-authors-of-first-citation', 'C19', 'a line split into two citations, the second of which names two author groups',
     'surplus author groups are only looked for in the first citation of a line',
     [('E', '''def remove_duplicated_authors(splitted_citations):
    for citation in splitted_citations:
''', '''def remove_duplicated_authors(splitted_citations):
    for citation in splitted_citations[:1]:
''')], '''
import sys
from refextract.references.engine import remove_duplicated_authors


def auth(t):
    return {"type": "AUTH", "auth_txt": t, "auth_type": "stnd", "misc_txt": ""}


out = remove_duplicated_authors([[auth("A")], [auth("B"), auth("C")]])
if [sum(e["type"] == "AUTH" for e in c) for c in out] != [1, 1]:
    sys.exit(str(out))
''')

seed('c20-empty-override', 'C20', 'an override given as an empty list',
     'an empty override replaces the default knowledge base',
     [('K', 'custom_kbs.items() if kb})', 'custom_kbs.items() if kb is not None})')], STRING + '''
out = parse("[1] A. Einstein, Phys. Rev. D 12, 34 (1990)", override_kbs_files={"journals": []})
check(out[0].get("journal_title"), out)
''')

seed('c20-publishers-merged', 'C20', 'an override of the publishers, and a line naming a publisher of the default knowledge base only',
     'publishers are looked up in the default knowledge base as well as in the override',
     [('K', '        "publishers": lambda kb: load_kb(kb, build_publishers_kb),', '        "publishers": lambda kb: {\n            **load_kb(CFG_REFEXTRACT_KBS["publishers"], build_publishers_kb),\n            **load_kb(kb, build_publishers_kb),\n        },')], '''
import os, shutil, sys, tempfile
from refextract import extract_references_from_string as parse
scratch = tempfile.mkdtemp()
try:
    kb = os.path.join(scratch, "p.kb")
    with open(kb, "w") as f:
        f.write("Acme Press---ACME\\n")
    out = parse("[1] A. Einstein, The theory of things, Springer, 1990, hep-th/9711200", override_kbs_files={"publishers": kb})
finally:
    shutil.rmtree(scratch)
if out[0].get("publisher"):
    sys.exit(str(out))
''')

seed('c21-volume-of-second-alternative', 'C21', 'numeration whose volume is matched by the last alternative of the volume pattern',
     'the volume matched by the last alternative is dropped, so the journal has no volume',
     [('T', '''            if not info["vol_num"]:
                info["vol_num"] = info["vol_num_alt2"]
            return {
                "year": info.get("year", None),
                "series": series,
                "volume": info["vol_num"],
                "page": info["page"] or info["jinst_page"],
                "page_end": info["page_end"],
                "len": len(''', '''            return {
                "year": info.get("year", None),
                "series": series,
                "volume": info["vol_num"],
                "page": info["page"] or info["jinst_page"],
                "page_end": info["page_end"],
                "len": len(''')], '''
import sys
from refextract.references.tag import find_numeration, find_numeration_more
tag = "<cds.JOURNAL>Phys.Rev.</cds.JOURNAL>"
for vol in ("12", "B12", "12B", "B 12", "12 B", "vol. 12", "A12", "12/B", "I", "XII", "12-13", "12-B13", "B12-B13", "B 12 - B 13"):
    for text in ("%s, %s, 34 (1990)", "%s : %s, (1990) 34", "%s %s (1990) 34", "%s, %s (1990), p. 34", "%s (1990) %s 34", "%s, (1990), %s, p. 34", "%s; %s, 34"):
        n = find_numeration_more(text % (tag, vol))
        if n and not (n["volume"] and n["page"]):
            sys.exit("%r: %s" % (text % (tag, vol), n))
''')

seed('c22-first-failure-ends-linking', 'C22', 'a linking callback that has no answer (missing key) for an item before one it can link',
     'the first missing key ends the linking of a citation',
     [('E', '            el["recid"] = None\n    return citation_elements', '            el["recid"] = None\n            break\n    return citation_elements')], STRING + '''
def link(el):
    return {"REPORTNUMBER": 7}[el["type"]]


out = parse("[1] A. Einstein, Phys. Rev. D 12, 34 (1990), hep-th/9711200", linker_callback=link)
check(out[0].get("recid") == ["7"], out)
''')

seed('c22-only-new-items', 'C22', 'a line citing a journal that is split, followed by an implied ibid without a title',
     'items added after splitting are linked only in the first citation',
     [('E', '''        for citations in splitted_citations:
            associate_recids(citations, linker_callback)
''', '''        for citations in splitted_citations[:1]:
            associate_recids(citations, linker_callback)
''')], STRING + '''
seen = []


def link(el):
    seen.append((el["type"], el.get("year")))
    return None


out = parse("[1] A. Einstein, Phys. Rev. D 12, 34 (1990); B. Bohr, Phys. Lett. B 11, 22 (1991)", linker_callback=link)
check(("YEAR", "1991") in seen, seen)
''')

seed('c23-urls-counted-once', 'C23', 'a line with more than one URL',
     'the URLs of a line are counted as one',
     [('E', '            count_url += 1\n', '            count_url = 1\n')], '''
import sys
from refextract.references.engine import parse_references
refs, stats = parse_references(["[1] A. Einstein, http://a.org/b, 1990, see also http://c.org/d, and more"])
if stats["url"] != 2:
    sys.exit(str(stats))
''')

seed('c23-misc-always', 'C23', 'a line consisting of recognised items only',
     'miscellaneous text is counted although none is left',
     [('E', '''    if len(cur_misc_txt.strip(" .;,")) > 0:
        # Increment the stats counters:
        count_misc += 1
''', '''    count_misc += 1
    if len(cur_misc_txt.strip(" .;,")) > 0:
''')], '''
import sys
from refextract.references.engine import parse_tagged_reference_line
els, _, counts = parse_tagged_reference_line("[1]", "<cds.REPORTNUMBER>hep-th/9711200</cds.REPORTNUMBER>.", [], [])
if counts["misc"] != sum(e["type"] == "MISC" for e in els):
    sys.exit("%s %s" % (els, counts))
''')
