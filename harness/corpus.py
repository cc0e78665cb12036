"""Formulas as people and programs write them: idioms, and whole documents of
trees (attributes and layout as usual)."""
import xml.etree.ElementTree as ET

from docs import T, math, mi, mn, mo, mrow, mtext

FORMULAS = """
<math display="block"><mi>x</mi><mo>=</mo><mfrac><mrow><mo>−</mo><mi>b</mi><mo>±</mo><msqrt><msup><mi>b</mi><mn>2</mn></msup><mo>−</mo><mn>4</mn><mi>a</mi><mi>c</mi></msqrt></mrow><mrow><mn>2</mn><mi>a</mi></mrow></mfrac></math>
<math><mrow><mo>-</mo><mn>1</mn></mrow></math>
<math><mo>-</mo><mi>x</mi></math>
<math><mrow><mi>a</mi><mo>=</mo><mrow><mo>-</mo><mn>5</mn></mrow></mrow></math>
<math><mrow><mo>+</mo><mn>3</mn></mrow><mrow><mo>−</mo><mn>3</mn></mrow><mrow><mo>±</mo><mi>x</mi></mrow></math>
<math><mn>2</mn><mo>&#x2062;</mo><mi>x</mi></math>
<math><mi>f</mi><mo>&#x2061;</mo><mrow><mo>(</mo><mi>x</mi><mo>)</mo></mrow></math>
<math><mi>sin</mi><mo>&#x2061;</mo><mi>x</mi></math>
<math><mi>f</mi><mfenced><mi>x</mi></mfenced></math>
<math><mi>f</mi><mfenced separators=","><mi>x</mi><mi>y</mi></mfenced><mo>=</mo><msup><mi>x</mi><mn>2</mn></msup></math>
<math><munderover><mo>∑</mo><mrow><mi>i</mi><mo>=</mo><mn>1</mn></mrow><mi>n</mi></munderover><msup><mi>i</mi><mn>2</mn></msup></math>
<math><msubsup><mo>∫</mo><mn>0</mn><mi>∞</mi></msubsup><msup><mi>e</mi><mrow><mo>−</mo><msup><mi>x</mi><mn>2</mn></msup></mrow></msup><mi>d</mi><mi>x</mi></math>
<math><munder><mi>lim</mi><mrow><mi>x</mi><mo>→</mo><mn>0</mn></mrow></munder><mfrac><mrow><mi>sin</mi><mi>x</mi></mrow><mi>x</mi></mfrac></math>
<math><munder><mo>lim</mo><mrow><mi>n</mi><mo>→</mo><mi>∞</mi></mrow></munder><msup><mfenced><mrow><mn>1</mn><mo>+</mo><mfrac><mn>1</mn><mi>n</mi></mfrac></mrow></mfenced><mi>n</mi></msup></math>
<math><mfenced open="[" close="]"><mtable><mtr><mtd><mn>1</mn></mtd><mtd><mn>0</mn></mtd></mtr><mtr><mtd><mn>0</mn></mtd><mtd><mn>1</mn></mtd></mtr></mtable></mfenced></math>
<math><mfenced open="|" close="|"><mtable columnalign="center"><mtr><mtd><mi>a</mi></mtd><mtd><mi>b</mi></mtd></mtr><mtr><mtd><mi>a</mi></mtd><mtd><mi>b</mi></mtd></mtr></mtable></mfenced></math>
<math><mfenced open="||" close="||"><mtable><mtr><mtd><mi>a</mi></mtd></mtr><mtr/></mtable></mfenced></math>
<math><mi>f</mi><mo>=</mo><mfenced open="{" close=""><mtable columnalign="left left"><mtr><mtd><mn>0</mn><mo>,</mo></mtd><mtd><mtext>if </mtext><mi>x</mi><mo>&lt;</mo><mn>0</mn></mtd></mtr><mtr><mtd><mn>1</mn><mo>,</mo></mtd><mtd><mtext>otherwise</mtext></mtd></mtr></mtable></mfenced></math>
<math><mrow><mo>{</mo><mtable><mtr><mtd><mi>x</mi><mo>+</mo><mi>y</mi><mo>=</mo><mn>1</mn></mtd></mtr><mtr><mtd><mi>x</mi><mo>-</mo><mi>y</mi><mo>=</mo><mn>0</mn></mtd></mtr></mtable></mrow></math>
<math><mtable displaystyle="true" columnalign="right left"><mtr><mtd><mi>y</mi></mtd><mtd><mi/><mo>=</mo><mi>x</mi><mo>+</mo><mn>1</mn></mtd></mtr><mtr><mtd/><mtd><mi/><mo>=</mo><mn>2</mn></mtd></mtr></mtable></math>
<math><mtable><mlabeledtr><mtd><mtext>(1)</mtext></mtd><mtd><mi>E</mi><mo>=</mo><mi>m</mi><msup><mi>c</mi><mn>2</mn></msup></mtd></mlabeledtr></mtable></math>
<math><mover accent="true"><mi>x</mi><mo>^</mo></mover><mo>,</mo><mover accent="false"><mi>x</mi><mo>¯</mo></mover><mo>,</mo><munder accentunder="true"><mi>x</mi><mo>_</mo></munder></math>
<math><mover><mrow><mi>A</mi><mi>B</mi></mrow><mo stretchy="true">→</mo></mover><mo>⟂</mo><mover><mi>v</mi><mo>⇀</mo></mover></math>
<math><munder><munder><mrow><mi>a</mi><mo>+</mo><mi>b</mi></mrow><mo>⏟</mo></munder><mtext>sum</mtext></munder></math>
<math><mover><mover><mrow><mi>a</mi><mo>+</mo><mi>b</mi></mrow><mo>⏞</mo></mover><mi>n</mi></mover></math>
<math><mroot><mi>x</mi><mn>3</mn></mroot><mo>+</mo><mroot><mrow><mn>1</mn><mo>+</mo><mroot><mi>x</mi><mn>3</mn></mroot></mrow><mi>n</mi></mroot></math>
<math><msqrt><mn>1</mn><mo>+</mo><msqrt><mn>1</mn><mo>+</mo><msqrt><mn>1</mn><mo>+</mo><mi>x</mi></msqrt></msqrt></msqrt></math>
<math><mfrac><mn>1</mn><mrow><mn>1</mn><mo>+</mo><mfrac><mn>1</mn><mrow><mn>1</mn><mo>+</mo><mfrac><mn>1</mn><mi>x</mi></mfrac></mrow></mfrac></mrow></mfrac></math>
<math><mfrac bevelled="true"><mn>1</mn><mn>2</mn></mfrac><mo>+</mo><mfrac linethickness="0"><mi>n</mi><mi>k</mi></mfrac></math>
<math><mfenced><mfrac linethickness="0"><mi>n</mi><mi>k</mi></mfrac></mfenced></math>
<math><msup><mi>x</mi><mo>′</mo></msup><mo>+</mo><msup><mi>f</mi><mo>''</mo></msup><mo>+</mo><msup><mi>y</mi><mrow><mo>′</mo><mo>′</mo></mrow></msup></math>
<math><msup><mrow><mo>(</mo><mi>a</mi><mo>+</mo><mi>b</mi><mo>)</mo></mrow><mn>2</mn></msup></math>
<math><msup><mfenced><mrow><mi>a</mi><mo>+</mo><mi>b</mi></mrow></mfenced><mn>2</mn></msup></math>
<math><msup><msup><mi>x</mi><mn>2</mn></msup><mn>3</mn></msup><msub><msub><mi>x</mi><mi>i</mi></msub><mi>j</mi></msub><msup><msub><mi>x</mi><mi>i</mi></msub><mn>2</mn></msup></math>
<math><msup><mi>e</mi><mrow><mi>i</mi><mi>π</mi></mrow></msup><mo>+</mo><mn>1</mn><mo>=</mo><mn>0</mn></math>
<math><msub><mi>H</mi><mn>2</mn></msub><mi>O</mi><mo>→</mo><msub><mi mathvariant="normal">O</mi><mn>2</mn></msub></math>
<math><mmultiscripts><mi>C</mi><mprescripts/><mn>6</mn><mn>14</mn></mmultiscripts></math>
<math><mmultiscripts><mi>R</mi><mi>i</mi><none/><none/><mi>j</mi><mprescripts/><mi>k</mi><mi>l</mi></mmultiscripts></math>
<math><mmultiscripts><mi>F</mi><mn>1</mn><none/><mprescripts/><mn>2</mn><none/></mmultiscripts><mfenced separators=",;"><mi>a</mi><mi>b</mi><mi>c</mi><mi>z</mi></mfenced></math>
<math><mi mathvariant="double-struck">R</mi><mo>⊂</mo><mi mathvariant="double-struck">C</mi><mo>,</mo><mi mathvariant="script">L</mi><mo>,</mo><mi mathvariant="fraktur">g</mi><mo>,</mo><mi mathvariant="bold">v</mi></math>
<math><mi>ℝ</mi><mo>∋</mo><mi>x</mi><mo>↦</mo><mi>α</mi><mo>⋅</mo><mi>β</mi><mo>∈</mo><mi>ℂ</mi></math>
<math><mo>∀</mo><mi>ε</mi><mo>&gt;</mo><mn>0</mn><mspace width="1em"/><mo>∃</mo><mi>δ</mi><mo>&gt;</mo><mn>0</mn><mo>:</mo><mo>|</mo><mi>x</mi><mo>|</mo><mo>&lt;</mo><mi>δ</mi></math>
<math><mi>A</mi><mo>∪</mo><mi>B</mi><mo>=</mo><mfenced open="{" close="}" separators="|"><mi>x</mi><mrow><mi>x</mi><mo>∈</mo><mi>A</mi></mrow></mfenced></math>
<math><mfenced open="⟨" close="⟩" separators="|"><mi>φ</mi><mi>ψ</mi></mfenced><mfenced open="⌊" close="⌋"><mi>x</mi></mfenced><mfenced open="|" close="|"><mi>x</mi></mfenced></math>
<math><mfenced><mfenced><mfenced><mi>x</mi></mfenced></mfenced></mfenced></math>
<math><mfenced open="["><mi>a</mi><mi>b</mi></mfenced><mfenced close="]"><mi>a</mi><mi>b</mi></mfenced></math>
<math><mfrac><mrow><msup><mo>∂</mo><mn>2</mn></msup><mi>u</mi></mrow><mrow><mo>∂</mo><msup><mi>x</mi><mn>2</mn></msup></mrow></mfrac><mo>=</mo><mfrac><mrow><mo>ⅆ</mo><mi>u</mi></mrow><mrow><mo>ⅆ</mo><mi>t</mi></mrow></mfrac></math>
<math><mo>∮</mo><mover><mi>E</mi><mo>→</mo></mover><mo>⋅</mo><mi>d</mi><mover><mi>A</mi><mo>→</mo></mover><mo>=</mo><mfrac><mi>Q</mi><msub><mi>ε</mi><mn>0</mn></msub></mfrac></math>
<math><mi mathvariant="normal">∇</mi><mo>×</mo><mi mathvariant="bold">B</mi><mo>=</mo><msub><mi>μ</mi><mn>0</mn></msub><mi mathvariant="bold-italic">J</mi></math>
<math><mtext>Let </mtext><mi>x</mi><mtext> be a real number, </mtext><mi>x</mi><mo>≥</mo><mn>0</mn><mtext>.</mtext></math>
<math><mtext mathvariant="bold">Satz 1.</mtext><mtext>für é-Funktionen &amp; ß</mtext><mtext>50% of α-β</mtext></math>
<math><mn>3.14</mn><mo>≈</mo><mi>π</mi><mo>,</mo><mn>1,000,000</mn><mo>,</mo><mn>6.022e23</mn><mo>,</mo><mn>½</mn><mo>,</mo><mi>x²</mi></math>
<math><menclose notation="longdiv"><mn>123</mn></menclose><menclose notation="updiagonalstrike"><mi>x</mi></menclose><menclose notation="box"><mi>a</mi><mo>+</mo><mi>b</mi></menclose></math>
<math><menclose notation="horizontalstrike"><mrow><mi>x</mi><mo>+</mo><mi>y</mi></mrow></menclose><menclose notation="top"><menclose notation="left"><mi>x</mi></menclose></menclose></math>
<math><maction actiontype="toggle" selection="2"><mi>x</mi><mi>y</mi></maction><maction actiontype="tooltip"><mi>x</mi><mtext>tip</mtext></maction></math>
<math><mrow><mi>x</mi><mphantom><mo>+</mo><mi>y</mi></mphantom><mo>=</mo><merror><mtext>bad</mtext></merror></mrow></math>
<math><semantics><mrow><mi>x</mi><mo>+</mo><mi>y</mi></mrow><annotation encoding="application/x-tex">x+y</annotation></semantics></math>
<math><mstyle displaystyle="true"><mfrac><mi>a</mi><mi>b</mi></mfrac></mstyle><mstyle scriptlevel="1" mathcolor="red"><mfrac><mi>a</mi><mi>b</mi></mfrac></mstyle></math>
<math><mpadded width="0" lspace="-1em"><mi>x</mi></mpadded><mspace linebreak="newline"/><ms>text</ms><mglyph src="a.png" alt="a"/></math>
<math><mi>n</mi><mo>!</mo><mo>=</mo><munderover><mo>∏</mo><mrow><mi>k</mi><mo>=</mo><mn>1</mn></mrow><mi>n</mi></munderover><mi>k</mi></math>
<math><msub><mi>log</mi><mn>2</mn></msub><mo>&#x2061;</mo><mi>x</mi><mo>=</mo><mfrac><mrow><mi>ln</mi><mi>x</mi></mrow><mrow><mi>ln</mi><mn>2</mn></mrow></mfrac></math>
<math><mi>P</mi><mfenced><mrow><mi>A</mi><mo>|</mo><mi>B</mi></mrow></mfenced><mo>=</mo><mfrac><mrow><mi>P</mi><mfenced><mrow><mi>B</mi><mo>|</mo><mi>A</mi></mrow></mfenced><mi>P</mi><mfenced><mi>A</mi></mfenced></mrow><mrow><mi>P</mi><mfenced><mi>B</mi></mfenced></mrow></mfrac></math>
<math><mi>a</mi><mo>≡</mo><mi>b</mi><mspace width="0.5em"/><mfenced><mrow><mo>mod</mo><mi>n</mi></mrow></mfenced></math>
<math><munder><mrow><mi>arg</mi><mi>max</mi></mrow><mi>θ</mi></munder><mover><mo>=</mo><mtext>def</mtext></mover><munderover><mo>→</mo><mi>a</mi><mi>b</mi></munderover></math>
<math><mfenced open="[" close="]"><mtable><mtr><mtd><mfenced open="(" close=")"><mtable><mtr><mtd><mi>a</mi></mtd></mtr></mtable></mfenced></mtd><mtd><mn>0</mn></mtd></mtr></mtable></mfenced></math>
<math><msup><mfenced open="[" close="]"><mtable><mtr><mtd><mi>a</mi></mtd><mtd><mi>b</mi></mtd></mtr></mtable></mfenced><mi>T</mi></msup></math>
<math><mtable><mtr><mtd><mtable><mtr><mtd><mi>a</mi></mtd></mtr><mtr><mtd><mi>a</mi></mtd></mtr></mtable></mtd></mtr><mtr><mtd><mi>a</mi></mtd></mtr></mtable></math>
<math><mo>(</mo><mo>(</mo><mi>a</mi><mo>,</mo><mi>b</mi><mo>]</mo><mo>]</mo><mo>[</mo><mn>0</mn><mo>,</mo><mn>1</mn><mo>)</mo><mo>&lt;</mo><mo>&amp;</mo></math>
<math><mn>1</mn><mo>+</mo><mn>2</mn><mo>+</mo><mo>⋯</mo><mo>+</mo><mi>n</mi><mo>...</mo><mo>…</mo></math>
<math><mi>x</mi><mo>∣</mo><mi>y</mi><mo>∥</mo><mi>z</mi><mo>∖</mo><mi>w</mi><mo>⊥</mo><mo>∠</mo><mi>A</mi><mi>B</mi><mi>C</mi><mo>=</mo><msup><mn>90</mn><mo>∘</mo></msup></math>
""".strip().split("\n")


def tree(e):
    texts = [e.text or ""] + [c.tail or "" for c in e]
    x = "".join(texts)
    x = x.strip(" \t\n\r")
    return {"t": e.tag, "a": list(e.attrib.items()), "x": x, "k": [tree(c) for c in e]}


TREES = [tree(ET.fromstring(x)) for x in FORMULAS]

# ends of formulas that occur together
SIBLINGS = [mo(x) for x in ["-", "−", "+", "±", "=", "(", ")", "[", "|", "<", ",", "!", "′", "∑", "∫", "\u2061", "\u2062", "→", "⋅", "/", "∂", "lim", "\u00a0",
                           ".", ";", ":", "?", "...", "…", "%", "&", "'", "\"", "*", "~", "`", "@", "#", "$", "^", "_", "{", "}", "]", "||", ">", "\\"]] + \
    [mi(x) for x in ["x", "sin", "α", "π", "d", "ab", "", "∞", "ℝ", "lim", "é"]] + [mn(x) for x in ["1", "12", "3.5", "½", "²"]] + \
    [mtext(x) for x in ["if", "a b", "é", "-", "."]] + \
    [mi("v", mathvariant="bold"), T("mspace"), T("none"), T("mphantom", mi("x")), mrow(), mrow(mo("("), mi("x"), mo(")")), mrow(mo("-"), mn("1")),
     T("msup", mi("x"), mn("2")), T("msub", mi("x"), mn("1")), T("mfrac", mi("a"), mi("b")), T("mfenced", mi("x")), T("mfenced"), T("msqrt", mi("x")),
     T("mover", mi("x"), mo("^")), T("mtable", T("mtr", T("mtd", mi("a")), T("mtd", mi("b")))), T("munderover", mo("∑"), mi("i"), mi("n")),
     T("menclose", mi("x")), T("merror", mi("x")), T("maction", mi("x"), mi("y")), T("mstyle", mi("x"), mi("y"))]
