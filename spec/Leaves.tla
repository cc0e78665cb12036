------------------------------- MODULE Leaves -------------------------------
(***************************************************************************)
(* Token elements: mi, mo, mn and mtext.                                   *)
(*                                                                         *)
(* A symbol table maps a whole content string to the tokens of its LaTeX;  *)
(* an entry with an empty translation counts as absent.                    *)
(***************************************************************************)
EXTENDS Chars

Entry(tab, keys, k) == IF k \in keys THEN tab[k] ELSE <<>>

SymNamed == Data.symbols_named      SymNamedKeys == DOMAIN SymNamed
SymGlyph == Data.symbols_glyph      SymGlyphKeys == DOMAIN SymGlyph
OpNamed  == Data.operators_named    OpNamedKeys  == DOMAIN OpNamed
OpGlyph  == Data.operators_glyph    OpGlyphKeys  == DOMAIN OpGlyph
NumGlyph == Data.numbers            NumGlyphKeys == DOMAIN NumGlyph
Accented == Data.accented           AccentedKeys == DOMAIN Accented
FontChar == Data.fonts              FontCharKeys == DOMAIN FontChar

FirstOf(a, b) == IF a # <<>> THEN a ELSE b

\* Translation by accented letters and special fonts; otherwise unchanged.
Plain(k) == FirstOf(Entry(Accented, AccentedKeys, k),
            FirstOf(Entry(FontChar, FontCharKeys, k), <<k>>))

\* One merged table per kind of token, in order of precedence.
Merge(first, firstKeys, second, secondKeys) ==
  [k \in firstKeys \cup secondKeys |->
     FirstOf(Entry(first, firstKeys, k), Entry(second, secondKeys, k))]

FontTable   == Merge(Accented, AccentedKeys, FontChar, FontCharKeys)
NumberTable == NumGlyph
LowTable    == Merge(NumberTable, NumGlyphKeys, FontTable, DOMAIN FontTable)
IdTable     == LET t == Merge(SymNamed, SymNamedKeys, SymGlyph, SymGlyphKeys)
               IN Merge(t, DOMAIN t, LowTable, DOMAIN LowTable)
OpTable     == LET t == Merge(OpNamed, OpNamedKeys, OpGlyph, OpGlyphKeys)
               IN Merge(t, DOMAIN t, LowTable, DOMAIN LowTable)
IdKeys  == DOMAIN IdTable
OpKeys  == DOMAIN OpTable
NumKeys == NumGlyphKeys

\* cs: normalised content.  Content without an entry comes out unchanged.
Translate(tab, keys, cs) ==
  LET k == Str(cs)
      v == IF k \in keys THEN tab[k] ELSE <<>>
  IN IF v # <<>> THEN v ELSE cs

Identifier(cs) == Translate(IdTable, IdKeys, Normalise(cs))
Operator(cs)   == Translate(OpTable, OpKeys, Normalise(cs))
Number(cs)     == Translate(NumberTable, NumKeys, Normalise(cs))

(* mathvariant of identifiers: font commands, outermost first. *)
VariantFonts(v) ==
  CASE v = "bold"                   -> <<"mathbf">>
    [] v = "italic"                 -> <<"mathit">>
    [] v = "bold-italic"            -> <<"mathbf", "mathit">>
    [] v = "double-struck"          -> <<"mathbb">>
    [] v = "bold-fraktur"           -> <<"mathbf", "mathfrak">>
    [] v = "script"                 -> <<"mathcal">>
    [] v = "bold-script"            -> <<"mathbf", "mathcal">>
    [] v = "fraktur"                -> <<"mathfrak">>
    [] v = "sans-serif"             -> <<"mathsf">>
    [] v = "bold-sans-serif"        -> <<"mathbf", "mathsf">>
    [] v = "sans-serif-italic"      -> <<"mathsf", "mathit">>
    [] v = "sans-serif-bold-italic" -> <<"mathbf", "mathsf", "mathit">>
    [] v = "monospace"              -> <<"mathtt">>
    [] OTHER                        -> <<>>

WrapFonts(fonts, ts) ==
  FoldRight(LAMBDA f, acc : <<"\\" \o f \o "{">> \o acc \o <<"}">>, fonts, ts)

(* mathvariant of text: commands around each run, outermost first. *)
TextFonts(v) ==
  CASE v = "bold"          -> <<"textbf">>
    [] v = "italic"        -> <<"textit">>
    [] v = "bold-italic"   -> <<"textbf", "textit">>
    [] v = "double-struck" -> <<"mathbb">>
    [] v = "monospace"     -> <<"mathtt">>
    [] v \in {"fraktur", "bold-fraktur"} -> <<"mathfrak">>
    [] OTHER               -> <<"text">>

IsRunChar(c) == c \in AsciiWord \/ IsWs(c)

\* Maximal runs of word characters and white space are styled together;
\* every other character is translated on its own like an identifier.  A space
\* keeps a command apart from a letter that comes after it.
EndsInCommand(ts) ==
  ts # <<>> /\ LET cs == CharsOf(ts[Len(ts)])
               IN \E i \in 1..(Len(cs) - 1) : cs[i] = "\\" /\ \A j \in (i + 1)..Len(cs) : cs[j] \in Letters
StartsWithLetter(ts) == ts # <<>> /\ ts[1] # "" /\ SubSeq(ts[1], 1, 1) \in Letters
Text(cs, v) ==
  LET wrapped == WrapFonts(TextFonts(v), <<>>)
      half    == Len(wrapped) \div 2
      open    == SubSeq(wrapped, 1, half)
      close   == SubSeq(wrapped, half + 1, Len(wrapped))
      run(i)  == IsRunChar(cs[i])
      piece(i) ==
        IF ~run(i)
        THEN LET ts == Identifier(<<cs[i]>>)
             IN IF i > 1 /\ StartsWithLetter(ts) /\ ~run(i - 1) /\ EndsInCommand(Identifier(<<cs[i - 1]>>))
                THEN <<Space>> \o ts ELSE ts
        ELSE (IF i = 1 \/ ~run(i - 1) THEN open ELSE <<>>)
             \o <<IF IsWs(cs[i]) THEN Space ELSE cs[i]>>
             \o (IF i = Len(cs) \/ ~run(i + 1) THEN close ELSE <<>>)
  IN Concat([i \in DOMAIN cs |-> piece(i)])
=============================================================================
