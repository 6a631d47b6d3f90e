use Unicode::UCD qw(prop_invmap prop_invlist);
binmode STDOUT, ":utf8";
for my $p (qw(Age GC Bidi_Class Script Script_Extensions Block East_Asian_Width Line_Break Grapheme_Cluster_Break Word_Break Sentence_Break Decomposition_Type Numeric_Type Numeric_Value Joining_Type Joining_Group Bidi_Paired_Bracket Bidi_Paired_Bracket_Type Bidi_Mirroring_Glyph Canonical_Combining_Class Hangul_Syllable_Type Simple_Uppercase_Mapping Simple_Lowercase_Mapping Simple_Titlecase_Mapping Lowercase_Mapping Uppercase_Mapping Titlecase_Mapping Decomposition_Mapping Indic_Positional_Category Indic_Syllabic_Category Vertical_Orientation)) {
  my ($l,$m,$f,$d)=prop_invmap($p);
  if(!defined $l){ print STDERR "no $p\n"; next; }
  open my $o, ">:utf8", "perl_$p.txt"; print $o "# $f $d\n";
  for my $i (0..$#$l){ my $v=$m->[$i]; $v=join(" ",@$v) if ref $v; printf $o "%X\t%s\n",$l->[$i],$v; }
}
for my $p (qw(Alphabetic White_Space Dash Hyphen Quotation_Mark Terminal_Punctuation Math Hex_Digit ASCII_Hex_Digit Ideographic Diacritic Extender Noncharacter_Code_Point Grapheme_Extend Grapheme_Link IDS_Binary_Operator IDS_Trinary_Operator Radical Unified_Ideograph Default_Ignorable_Code_Point Deprecated Logical_Order_Exception XID_Start XID_Continue ID_Start ID_Continue Grapheme_Base Sentence_Terminal Variation_Selector Pattern_Syntax Pattern_White_Space Prepended_Concatenation_Mark Emoji Emoji_Presentation Emoji_Modifier Emoji_Modifier_Base Emoji_Component Extended_Pictographic Bidi_Mirrored Bidi_Control Join_Control Lowercase Uppercase Regional_Indicator Soft_Dotted Cased Case_Ignorable)) {
  my @l=prop_invlist($p); if(!@l){print STDERR "no $p\n";next}
  open my $o, ">", "perlb_$p.txt"; printf $o "%X\n",$_ for @l;
}
