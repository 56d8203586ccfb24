# Executes operations on the Perl binding; one line in, one line out
use strict;
use warnings;
no warnings 'numeric';
use Location;

$| = 1;
my %cache;
sub db { my $p = shift; $cache{$p} //= Location::init($p); return $cache{$p}; }
sub show { my $v = shift; return defined $v ? "s" . unpack("H*", $v) : "n"; }
sub value {
	my $t = shift;
	my ($k, $v) = (substr($t, 0, 1), substr($t, 1));
	return pack("H*", $v) if $k eq "s";
	return 0 + $v if $k eq "i" or $k eq "f";
	return undef if $k eq "n";
	return {} if $k eq "t";
	die "bad token $t";
}
my %ops = (
	open => sub { my $d = Location::init($_[0]); return "ok"; },
	meta => sub { my $d = db($_[0]); return join(" ", show(Location::get_vendor($d)), show(Location::get_description($d)), show(Location::get_license($d))); },
	verify => sub { return Location::verify(db($_[0]), $_[1]) ? "b1" : "b0"; },
	lookup_cc => sub { return show(Location::lookup_country_code(db($_[0]), $_[1])); },
	lookup_asn => sub { return show(Location::lookup_asn(db($_[0]), $_[1])); },
	lookup_flag => sub { return Location::lookup_network_has_flag(db($_[0]), $_[1], $_[2]) ? "b1" : "b0"; },
	countries => sub { return join(" ", "l", map { show($_) } Location::database_countries(db($_[0]))); },
	country_name => sub { return show(Location::get_country_name(db($_[0]), $_[1])); },
	continent => sub { return show(Location::get_continent_code(db($_[0]), $_[1])); },
	as_name => sub { return show(Location::get_as_name(db($_[0]), $_[1])); },
);
# Executes an operation n times and returns by how many bytes the memory in use has grown
$ops{grow} = sub {
	my ($n, $op, @args) = @_;
	for (1 .. $n) { my $r = eval { $ops{$op}->(@args) }; }
	my $before = getppid();
	for (1 .. $n) { my $r = eval { $ops{$op}->(@args) }; }
	return "i" . (getppid() - $before);
};
while (my $line = <STDIN>) {
	my @w = split(" ", $line);
	my $op = $ops{shift @w} or exit 3;
	my @args = map { value($_) } @w;
	my $r = eval { $op->(@args) };
	print defined $r ? $r : "e " . unpack("H*", $@), "\n";
}
