import json
F=[]
def fx(p,c,w): F.append({"property":p,"what":w,"fixed":f"fixed: property={p} {c} {w}"})
fx("C03","4313308","<b>a</b><i>b</i> adjacency: adjacent bold and italic elements were merged into one")
fx("C13","f274561","getTagType sorted the shared registration slice in place (data race between conversions)")
fx("C13","78369c8","registeredPlugins was read without the lock")
fx("C14","b77aaa3","handlers of equal priority were not run in registration order from 13 handlers on (unstable sort)")
fx("C18","1ad90ca","EscapeModeDisabled: a heading ending in '#' got a backslash / panicked")
fx("C01","e7e8d79","text '```' of mixed fence characters was taken for a code fence and the wrong characters escaped")
fx("C01","f9880e0","text in a blockquote that starts a construct after the prefix lost or gained its escape")
fx("C02","34dc5cf","backslashes in link and image titles were not escaped")
fx("C02","0e3c7ba","image alternative text could close the image")
fx("C02","997ee05","the code language could break the info string")
fx("C23","c91b661","an error writing the result to stdout was ignored")
fx("C21","22b7f87","nested matches of the include selector were not in document order")
fx("C16","93379f6","option values with extra characters passed the validation")
fx("C19","6a4c3d7","the number of columns did not count the cells a span pushes into later rows")
fx("C10","fda6635","huge colspan/rowspan values exhausted the memory")
fx("C19","b704acd","alignment was not assigned to the columns a header cell spans")
fx("C19","0b3c9e1","a pipe in a cell could split the cell")
fx("C03","a753248","'*' or '_' in text directly after a real delimiter was not escaped")
fx("C03","a5152ba","<b>a* b</b>: an asterisk that could end the emphasis was not escaped")
fx("C01","2b8d120","'[<br>[a](b)': a bracket closed after a hard line break was not escaped")
fx("C04","5d6d7c7","<ul><li>--</li></ul>: bullet and text together formed a thematic break")
fx("C03","780b322","'* <b>*</b>': the divider check skipped over real delimiters")
fx("C03","2d3d276","empty kbd, samp, tt and var elements were rendered as delimiters without content")
fx("C03","ff6c9a9","inline code without visible content was rendered as delimiters without content")
fx("C03","5055c63","the whitespace after kbd, samp, tt and var elements was lost")
fx("C04","a4d83ec","<blockquote><pre>d\n\ne</pre></blockquote>: the lines of a code block left the blockquote")
fx("C04","8b59a19","a<ul></ul>b: an empty list, quote or heading glued the text around it together")
fx("C04","dde763e","<ol start=-1>, start above nine digits: the numbers were not recognised as a list")
fx("C04","13a7b8b","<div><b>c</b><b>c</b></div><b>c</b>: bold text was moved into the container before it")
fx("C04","38aec5a","<ul><li><b>c</b></li><b>c</b></ul>: content moved into the item was not merged (c****c)")
fx("C04","3c87d5b","<ul>a</ul><li><ul>a</ul></li>: two lists became one")
fx('C03','7e38f5e','<i>d</i><b></b><i>x</i>: empty bold/italic between two others left joined delimiters (d**x)')
fx('C03','7750e0c','x<code>e</code><b><span></span></b>y: a space was invented')
fx('C05','e1e1d26','<pre>a<b><code>x</code></b>c</pre>: spaces were added inside of code')
fx("C03","3ecd72a","a <b>a<span><code>e</code>b</span></b>c: a space was invented")
fx("C03","89aeddb","<span>a<code>e</code></span><b><code>e</code></b>: a space was invented")
fx("C01","4cfe6d5","'````<br>```': an unescaped rest of the fence became inline code")
fx("C03","2b9c5ea","<h2><a href=/u>a<br><br>b</a></h2>: a backslash was invented")
fx("C03","caafc63","<b>a</b><code></code><b>b</b>: delimiters of the two bold pieces joined")
F.append({"property":"C03","what":"a line break inside a link that is a part of bold text puts delimiters into the link text","inputs":['<p><b>a<a href="/u">a<br>a</a></b></p>']})
F.append({"property":"C03","what":"bold text split by an element without a meaning of its own (other than span) is not joined, so the delimiters show","inputs":["<p><b>a</b><u></u><b>c</b></p>","<p><b>a</b><u><b>c</b></u></p>"]})
fx('C02','2c2d390','title="a&#13;&#13;b": a carriage return in a title or alternative text ended the link')
fx('C02','f9344d3','href="data:a\\*b": a backslash in an address disappeared in Markdown')
fx('C02','935e89d','class="language-a\\+b": the backslash disappeared')
fx('C02','044d1ca','class="language-clang-format" became cformat')
fx('C02','4f52d45','<img src="//" title="t">: the title became the address')
fx('C05','9120b31','<p><code>\\n\\n</code></p>: an empty line inside the code span ended the paragraph')
fx('C06','2b73f45','<a href="/a&amp;copy;">: the reader sees another address (entity decoded)')
fx('C06','77a8193','<a href="/a&#13;b">, <a href="/a&#1;b">: control characters broke the destination / kept relative addresses from being resolved')
fx('C06','dcfbddf','<a href="/é%2Fb">: the escaped slash became a separator')
fx('C04','b5beb63','<ul><li>a</li></ul> <img> <ul><li>b</li></ul>: two lists became one')
fx('C09','5fa7721','a<img src="/u"> <b></b> <p>b</p>: trailing blank before the empty line')
fx('C09','6de6f74','<h1>a <pre></pre></h1> as setext heading: trailing blank')
fx('C10','7b9f221','100 kB of opening brackets took 12 seconds (quadratic time)')
fx('C16','e9ad547','unknown values for the behavior of empty links were accepted silently')
fx('C16','8de0103','an unknown escape mode was accepted silently')
fx('C16','838710b','a horizontal rule with four leading spaces was accepted and came out as a code block')
fx('C05','32f22e0','a carriage return in code (written as a character reference), which ends the line and so left a list item or a blockquote')
fx('C05','7f4b358','two backticks of the text directly before inline code joined its delimiter at the start of a line')
fx('C05','9b44c8f','three backticks of the text at the start of a line: the two that were not escaped were closed by inline code later in the paragraph')
F.append({"property":"C17","what":"formatting that meets across the border of a skipped link is not joined, so the delimiters show","inputs":['2\x1f<p><code>c</code><a href=""><code>c</code></a></p>','1\x1f<p><b>c</b><a href="/u"></a><b>d</b></p>']})
F.append({"property":"C18","what":"U+F002, which the converter uses itself for the line ends of code blocks, comes out as a line end when it stands in text","inputs":['0\x1f0\x1f\uf002\x1fz','0\x1f5\x1f\uf002\x1fz','0\x1f0\x1fa\uf002b\x1fz','0\x1f5\x1fa\uf002b\x1fz']})
F.append({"property":"C18","what":"U+0007, which the converter uses itself to mark what may need escaping, becomes a backslash before a # at the end of a heading","inputs":['0\x1f5\x1f\x07#\x1fz']})
fx('C19','a537e78','<table><tr><td>a<tr><th>c</table>: a later row with a th was moved to the top')
fx('C19','2b1dd47','<table><tfoot><tr><td>f</tfoot><tbody>...: the footer came before the rows of the body')
fx('C19','e8dd0a8','<th align=CENTER>: the alignment was lost')
fx('C19','5b6ef68','<td colspan="2 ">, colspan="2px": the span was ignored, so later cells were in other columns')
fx('C19','3416abc','<thead><tr><th rowspan=2>a<td>b</thead><tr><th>c: the span reached from the thead into the body; rowspan=0 was ignored')
fx('C19','ec4273d','<table><tr><td><b>d</b></td><td><b>d</b></td></tr><tr><td>e<br>f</table>: the contents of neighbouring cells ran together')
fx('C19','74281cf','<td><pre>p\\nq</pre> with newlines preserved: the lines of the code block broke the table')
fx('C20','cb45045','two inputs could get the same output file: with src/a.html, src/sub/a.html and src/a.56b47f4c9d.html, --input src/** --output out/ refused to write the third, and with --output-overwrite one conversion replaced the other')
fx('C20','132dd66','with --output-overwrite an output could replace an input before it was read: src/a.html and src/a.md, --input src/* --output src/ converted the new a.md instead of the file')
fx('C21','38112d6','--exclude-selector removed elements that did not match, because removing one element changed what matched next: p:last-child on <div><p>1</p><p>2</p></div> removed both')
fx('C24','452713e','with the table plugin, text on a later line of a paragraph was read as the delimiter row of a table: <p>a<br>:-</p>')
fx('C26','6cff9e4','newlines and blank lines of kept HTML (in attributes and pre) are damaged: collapsed, delimited or prefixed')
fx('C26','cd04bac','the tags written around a block are joined to the text next to it (RenderAsHTMLWrapper)')
fx('C28','ddc63a6','converting a node in place (ConvertNode of a node inside a larger tree) moved content of its neighbours in, lost content to its ancestors and changed the page around it')
fx('C21','0033303',"exclude selectors were matched against the selected parts, not the page: --include-selector p --exclude-selector 'div p' (or p:last-child) excluded nothing or too much")
fx('C04','e65de36','<ol start=" 7"> and <ol start="7a">: the start number was ignored where white space or something else stood around it')
fx('C12','fd76c9d','a nil option left the converter locked: every later conversion on it hung')
fx('C10','8a2030f','thousands of comments between texts (or adjacent text nodes of a tree) take memory in proportion to the square of their number')
fx('C17','9482b6d','a language that starts with a tilde became part of the ~~~ fence')
fx('C17','4468d46','the language of a code block that looks like a html entity was decoded by the renderer')
#NEXT
json.dump({"findings":F},open('/verif/known_findings.json','w'),indent=1,ensure_ascii=False); open('/verif/known_findings.json','a').write('\n')
