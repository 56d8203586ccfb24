# Lets any one allocation of the library and the binding fail in everything there is in Perl
use strict;
no warnings;
use Location;

$| = 1;
my ($data, $thorough) = @ARGV;
my $ops = 0;
sub db { return Location::init("$data/db1"); }

# what prepares it, what is executed, what errors may look like
my @programs = (
	[ "init", sub { 1 }, sub { my $d = db(); return Location::get_vendor($d) . Location::get_description($d) . Location::get_license($d); } ],
	[ "init with something bad", sub { 1 }, sub { return Location::init("$data/magic"); }, "error" ],
	[ "init with something that is missing", sub { 1 }, sub { return Location::init("$data/missing"); }, "error" ],
	[ "verify", \&db, sub { return Location::verify($_[0], "$data/good.pub"); } ],
	[ "database_countries", \&db, sub { return join(",", Location::database_countries($_[0])); } ],
	[ "lookup_country_code", \&db, sub { return Location::lookup_country_code($_[0], "10.1.2.3"); } ],
	[ "lookup_country_code of something bad", \&db, sub { return Location::lookup_country_code($_[0], "x"); }, "error" ],
	[ "lookup_network_has_flag", \&db, sub { return Location::lookup_network_has_flag($_[0], "10.1.2.3", "LOC_NETWORK_FLAG_DROP"); } ],
	[ "lookup_network_has_flag 2", \&db, sub { return Location::lookup_network_has_flag($_[0], "2001:db8::1", "LOC_NETWORK_FLAG_ANYCAST"); } ],
	[ "lookup_asn", \&db, sub { return Location::lookup_asn($_[0], "10.1.2.3"); } ],
	[ "get_country_name", \&db, sub { return Location::get_country_name($_[0], "DE"); }, "absent" ],
	[ "get_continent_code", \&db, sub { return Location::get_continent_code($_[0], "DE"); }, "absent" ],
	[ "get_as_name", \&db, sub { return Location::get_as_name($_[0], 64512); }, "absent" ],
);

my ($n, $make, $op);
sub once {
	my $o = $make->();
	getpriority(0, $n);
	my $r = eval { $op->($o) };
	my $failed = $@ ne "";
	my $fired = getpriority(1, 0);
	return ($o, $fired, !$failed, $r);
}
for my $p (@programs) {
	(my $what, $make, $op, my $errors) = @$p;
	my $want = eval { $op->($make->()) };
	my $failed = $@ ne "";
	print "fail $what gives $want $@\n" if $failed != ($errors eq "error");
	$n = 0;
	my $misses = 0;
	while ($misses < 3) {
		my ($o, $fired, $ok, $r) = once();
		$ops++;
		$misses++ if !$fired;
		if ($ok and $errors eq "error") {
			print "fail $what succeeds when memory runs out ($n): $r\n";
		} elsif ($ok) {
			if ($r ne $want and !($fired and $errors eq "absent" and !defined $r)) {
				print "fail $what without memory ($n): $r instead of $want\n";
			}
		} elsif ($errors ne "error" and !$fired) {
			print "fail $what fails on its own ($n)\n";
		}
		print "$what $n " . ($ok ? "ok" : "error") . "\n";
		$r = eval { $op->($o) };
		$failed = $@ ne "";
		if ($failed != ($errors eq "error") or (!$failed and $r ne $want)) {
			print "fail $what after memory had run out ($n): $r\n";
		}
		undef $o;
		undef $r;
		my $grown;
		# Growth that is not caused by each attempt does not count
		for (1 .. 4) {
			once() for 1 .. 4;
			my $before = getppid();
			once() for 1 .. 20;
			$grown = getppid() - $before;
			last if $grown < 20 * 16;
		}
		print "fail $what without memory ($n) loses $grown bytes in 20 attempts\n" if $grown >= 20 * 16;
		$n++;
	}
}
print "ops $ops\n";
print "end\n";
