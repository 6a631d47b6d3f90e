use Unicode::UCD qw(prop_value_aliases prop_values);
for my $p (qw(gc bc sc blk ea lb GCB WB SB dt nt jt jg bpt InPC InSC vo hst age ccc)) {
  for my $v (prop_values($p)) { my @a = prop_value_aliases($p,$v); print join("\t",$p,@a),"\n"; }
}
