# Calls a function with all sorts of objects in Perl
use strict;
no warnings;
use Location;

$| = 1;
my ($data, $thorough, $op, $kind) = @ARGV;
my $n = 0;
sub db { return Location::init("$data/" . ($_[0] // "db1")); }
my $f = \&{"Location::$op"};

my @values = (undef, 0, 1, -1, 5, 1.5, 4294967296, 1e300, "nan", "", "DE", "10.1.2.3", "a\0b", "x" x 300, "$data/good.pub", "$data/db2", "$data/missing", "LOC_NETWORK_FLAG_DROP", [], {}, sub { 1 }, \*STDOUT, \5, \"x", db("db2"), db("db3"), qr/x/, "\x{263a}");

my %kinds = (
	ok => sub { return db(); },
	destroyed => sub { my $d = db(); $d->DESTROY(); return $d; },
	copy => sub { my $d = db(); my $c = $d; undef $d; return $c; },
	undef => sub { return undef; },
	number => sub { return 42; },
	string => sub { return "Location"; },
	scalar => sub { my $x = 42; return \$x; },
	ref => sub { my $x = db(); return \$x; },
	array => sub { return [db()]; },
	blessed => sub { return bless {}, "Location"; },
	zero => sub { my $x = 0; return bless \$x, "Location"; },
	code => sub { return sub { 1 }; },
	glob => sub { return \*STDOUT; },
	end => sub { return db(); },
);
sub use_ {
	my @a = @_;
	$n++;
	my @r = eval { $f->(@a) };
	return $@ ? "" : "ok";
}
sub all {
	my $make = shift;
	use_();
	use_($make->());
	for my $v (@values) {
		use_($make->(), $v);
		use_($v, $make->()) if $op ne "DESTROY" or ref($v) ne "Location";
		for my $w (@values) {
			use_($make->(), $v, $w);
		}
		# Twice on the same object
		my $d = $make->();
		use_($d, $v);
		use_($d, $v, "LOC_NETWORK_FLAG_DROP");
		use_($d);
		use_($d);
	}
}
sub after {
	my $d = $kinds{$kind}->();
	# A database that is open, and has been used, still answers
	use_($d, "10.1.2.3", "LOC_NETWORK_FLAG_DROP");
	if (($kind eq "ok" or $kind eq "copy") and $op ne "DESTROY" and $op ne "init") {
		my $r = eval { Location::lookup_country_code($d, "10.1.2.3") };
		print "fail the country is $r after $op\n" if $r ne "US";
	} elsif ($kind ne "end" and $op ne "DESTROY" and $op ne "init") {
		for my $v (@values) {
			print "fail $op succeeds on something that is $kind\n" if use_($kinds{$kind}->(), $v, "LOC_NETWORK_FLAG_DROP") and $kind ne "ok" and $kind ne "copy";
		}
	}
}

package Last;
sub new { my ($c, $d) = @_; return bless { db => $d }, $c; }
sub DESTROY {
	my $s = shift;
	for my $v (@values) {
		eval { $f->($s->{db}, $v, "LOC_NETWORK_FLAG_DROP") };
	}
}
package main;

if ($kind eq "end") {
	# Used while everything is destroyed in any order
	our $a = Last->new(db());
	our $d = db();
	our $b = Last->new($d);
	our ($x, $y) = (db(), undef);
	$y = Last->new($x);
	$x->{self} = 1 if 0;
	our $cycle = { last => Last->new(db()) };
	$cycle->{cycle} = $cycle;
}
all($kinds{$kind});
after();
print "ops $n\n";
print "end\n";
