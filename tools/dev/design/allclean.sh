cd /verif; for i in B01 B02 E01 E02 E03 R01 R02 A01 D01 S01 W01 I01 G01 P01 F01 X01 T01 C01 C02 M01 U01 V01 Q01 Z01 H01 O01; do timeout 900 ./check $i quick > /tmp/clean.$i 2>&1; echo "$i $? $(grep -o 'obligations=.*' /tmp/clean.$i | head -1)"; done
