# hos.sh from to scale [extra]: short reports
f=$1; t=$2; s=$3; shift 3
bash /tmp/seeds.sh asan h_hostile $f $t --scale $s $* > /tmp/o/hos.txt 2>&1
grep -a "^seed\|runtime error\|SUMMARY\|ERROR: Add\|#[0-4] .*\(repo\|harness\)\|^case" /tmp/o/hos.txt | cut -c1-${W:-330} | head -${L:-60}
