------------------------------- MODULE Butcher -------------------------------
(* Tableaux of the fixed-step explicit Runge-Kutta methods.  A number is      *)
(* <<i, f>> = i + f*10^-9, 0 <= f < 10^9.  c[s]: stage time; a[s][j], b[j].   *)
(* Each was verified against the rooted-tree order conditions (tools/README). *)
EXTENDS Integers, Sequences
TableauSet == {
  [m |-> "Euler", order |-> 1, s |-> 1, c |-> <<<<0,0>>>>, a |-> <<<<>>>>, b |-> <<<<1,0>>>>],
  [m |-> "RK2 Heun", order |-> 2, s |-> 2, c |-> <<<<0,0>>,<<1,0>>>>, a |-> <<<<>>,<<<<1,0>>>>>>, b |-> <<<<0,500000000>>,<<0,500000000>>>>],
  [m |-> "RK2 MP", order |-> 2, s |-> 2, c |-> <<<<0,0>>,<<0,500000000>>>>, a |-> <<<<>>,<<<<0,500000000>>>>>>, b |-> <<<<0,0>>,<<1,0>>>>],
  [m |-> "RK2 Ralston", order |-> 2, s |-> 2, c |-> <<<<0,0>>,<<0,666666667>>>>, a |-> <<<<>>,<<<<0,666666667>>>>>>, b |-> <<<<0,250000000>>,<<0,750000000>>>>],
  [m |-> "RK3", order |-> 3, s |-> 3, c |-> <<<<0,0>>,<<0,500000000>>,<<1,0>>>>, a |-> <<<<>>,<<<<0,500000000>>>>,<<<<-1,0>>,<<2,0>>>>>>, b |-> <<<<0,166666667>>,<<0,666666667>>,<<0,166666667>>>>],
  [m |-> "RK3 Heun", order |-> 3, s |-> 3, c |-> <<<<0,0>>,<<0,333333333>>,<<0,666666667>>>>, a |-> <<<<>>,<<<<0,333333333>>>>,<<<<0,0>>,<<0,666666667>>>>>>, b |-> <<<<0,250000000>>,<<0,0>>,<<0,750000000>>>>],
  [m |-> "RK3 Ralston", order |-> 3, s |-> 3, c |-> <<<<0,0>>,<<0,500000000>>,<<0,750000000>>>>, a |-> <<<<>>,<<<<0,500000000>>>>,<<<<0,0>>,<<0,750000000>>>>>>, b |-> <<<<0,222222222>>,<<0,333333333>>,<<0,444444444>>>>],
  [m |-> "SSPRK3", order |-> 3, s |-> 3, c |-> <<<<0,0>>,<<1,0>>,<<0,500000000>>>>, a |-> <<<<>>,<<<<1,0>>>>,<<<<0,250000000>>,<<0,250000000>>>>>>, b |-> <<<<0,166666667>>,<<0,166666667>>,<<0,666666667>>>>],
  [m |-> "RK4", order |-> 4, s |-> 4, c |-> <<<<0,0>>,<<0,500000000>>,<<0,500000000>>,<<1,0>>>>, a |-> <<<<>>,<<<<0,500000000>>>>,<<<<0,0>>,<<0,500000000>>>>,<<<<0,0>>,<<0,0>>,<<1,0>>>>>>, b |-> <<<<0,166666667>>,<<0,333333333>>,<<0,333333333>>,<<0,166666667>>>>],
  [m |-> "DP5", order |-> 5, s |-> 7, c |-> <<<<0,0>>,<<0,200000000>>,<<0,300000000>>,<<0,800000000>>,<<0,888888889>>,<<1,0>>,<<1,0>>>>, a |-> <<<<>>,<<<<0,200000000>>>>,<<<<0,75000000>>,<<0,225000000>>>>,<<<<0,977777778>>,<<-4,266666667>>,<<3,555555556>>>>,<<<<2,952598689>>,<<-12,404206676>>,<<9,822892852>>,<<-1,709190672>>>>,<<<<2,846275253>>,<<-11,242424242>>,<<8,906422718>>,<<0,278409091>>,<<-1,726468696>>>>,<<<<0,91145833>>,<<0,0>>,<<0,449236298>>,<<0,651041667>>,<<-1,677623821>>,<<0,130952381>>>>>>, b |-> <<<<0,91145833>>,<<0,0>>,<<0,449236298>>,<<0,651041667>>,<<-1,677623821>>,<<0,130952381>>,<<0,0>>>>],
  [m |-> "DP5alt", order |-> 5, s |-> 7, c |-> <<<<0,0>>,<<0,100000000>>,<<0,222222222>>,<<0,428571429>>,<<0,600000000>>,<<0,800000000>>,<<1,0>>>>, a |-> <<<<>>,<<<<0,100000000>>>>,<<<<-1,975308642>>,<<0,246913580>>>>,<<<<0,448250729>>,<<-1,212827988>>,<<0,767492711>>>>,<<<<0,589636364>>,<<-1,18181818>>,<<0,712573427>>,<<0,279608392>>>>,<<<<-1,286410774>>,<<1,309090909>>,<<0,120128342>>,<<-1,347986532>>,<<0,736383442>>>>,<<<<2,340488215>>,<<-4,818181818>>,<<-1,236876246>>,<<4,482612117>>,<<-3,154139434>>,<<0,967702170>>>>>>, b |-> <<<<0,76018519>>,<<0,0>>,<<0,274041072>>,<<0,192058952>>,<<0,107570806>>,<<0,290310651>>,<<0,60000000>>>>],
  [m |-> "CK5", order |-> 5, s |-> 6, c |-> <<<<0,0>>,<<0,200000000>>,<<0,300000000>>,<<0,600000000>>,<<1,0>>,<<0,875000000>>>>, a |-> <<<<>>,<<<<0,200000000>>>>,<<<<0,75000000>>,<<0,225000000>>>>,<<<<0,300000000>>,<<-1,100000000>>,<<1,200000000>>>>,<<<<-1,796296296>>,<<2,500000000>>,<<-3,407407407>>,<<1,296296296>>>>,<<<<0,29495804>>,<<0,341796875>>,<<0,41594329>>,<<0,400345414>>,<<0,61767578>>>>>>, b |-> <<<<0,97883598>>,<<0,0>>,<<0,402576490>>,<<0,210437710>>,<<0,0>>,<<0,289102202>>>>],
  [m |-> "DP6", order |-> 6, s |-> 8, c |-> <<<<0,0>>,<<0,100000000>>,<<0,222222222>>,<<0,428571429>>,<<0,600000000>>,<<0,800000000>>,<<1,0>>,<<1,0>>>>, a |-> <<<<>>,<<<<0,100000000>>>>,<<<<-1,975308642>>,<<0,246913580>>>>,<<<<0,448250729>>,<<-1,212827988>>,<<0,767492711>>>>,<<<<0,589636364>>,<<-1,18181818>>,<<0,712573427>>,<<0,279608392>>>>,<<<<-1,286410774>>,<<1,309090909>>,<<0,120128342>>,<<-1,347986532>>,<<0,736383442>>>>,<<<<2,340488215>>,<<-4,818181818>>,<<-1,236876246>>,<<4,482612117>>,<<-3,154139434>>,<<0,967702170>>>>,<<<<1,749139460>>,<<-3,609577922>>,<<-1,603747426>>,<<3,272858329>>,<<-3,936483621>>,<<0,828193241>>,<<0,0>>>>>>, b |-> <<<<0,70601852>>,<<0,0>>,<<0,305849411>>,<<0,115103824>>,<<0,187227669>>,<<0,254252959>>,<<-1,966964286>>,<<0,100000000>>>>],
  [m |-> "L6", order |-> 6, s |-> 7, c |-> <<<<0,0>>,<<1,0>>,<<0,500000000>>,<<0,666666667>>,<<0,172673165>>,<<0,827326835>>,<<1,0>>>>, a |-> <<<<>>,<<<<1,0>>>>,<<<<0,375000000>>,<<0,125000000>>>>,<<<<0,296296296>>,<<0,74074074>>,<<0,296296296>>>>,<<<<0,51640769>>,<<-1,950664810>>,<<0,296011139>>,<<-1,874356447>>>>,<<<<-2,814511836>>,<<-1,763620904>>,<<-1,251824376>>,<<0,880854580>>,<<2,116515139>>>>,<<<<4,506502489>>,<<0,666666667>>,<<6,17339970>>,<<-5,888295520>>,<<-8,981085902>>,<<0,940109452>>>>>>, b |-> <<<<0,50000000>>,<<0,0>>,<<0,355555556>>,<<0,0>>,<<0,272222222>>,<<0,272222222>>,<<0,50000000>>>>],
  [m |-> "DP8", order |-> 8, s |-> 13, c |-> <<<<0,0>>,<<0,55555556>>,<<0,83333333>>,<<0,125000000>>,<<0,312500000>>,<<0,375000000>>,<<0,147500000>>,<<0,465000000>>,<<0,564865451>>,<<0,650000000>>,<<0,924656278>>,<<1,0>>,<<1,0>>>>, a |-> <<<<>>,<<<<0,55555556>>>>,<<<<0,20833333>>,<<0,62500000>>>>,<<<<0,31250000>>,<<0,0>>,<<0,93750000>>>>,<<<<0,312500000>>,<<0,0>>,<<-2,828125000>>,<<1,171875000>>>>,<<<<0,37500000>>,<<0,0>>,<<0,0>>,<<0,187500000>>,<<0,150000000>>>>,<<<<0,47910137>>,<<0,0>>,<<0,0>>,<<0,112248713>>,<<-1,974494326>>,<<0,12846824>>>>,<<<<0,16917990>>,<<0,0>>,<<0,0>>,<<0,387848278>>,<<0,35977370>>,<<0,196970214>>,<<-1,827286148>>>>,<<<<0,69095753>>,<<0,0>>,<<0,0>>,<<-1,365752023>>,<<-1,838802425>>,<<0,138650309>>,<<0,940928614>>,<<0,211636326>>>>,<<<<0,183556997>>,<<0,0>>,<<0,0>>,<<-3,531231916>>,<<-1,708713112>>,<<-1,973526980>>,<<2,847838764>>,<<0,281387331>>,<<0,123744900>>>>,<<<<-2,784575183>>,<<0,0>>,<<0,0>>,<<16,672608666>>,<<0,915741828>>,<<-7,943394196>>,<<-17,996426406>>,<<14,849303086>>,<<-14,628424265>>,<<5,134182648>>>>,<<<<0,258860916>>,<<0,0>>,<<0,0>>,<<-5,225514215>>,<<-1,564906986>>,<<-4,950516668>>,<<5,577920040>>,<<6,155831590>>,<<-6,937895413>>,<<2,193926173>>,<<0,134627999>>>>,<<<<0,822427600>>,<<0,0>>,<<0,0>>,<<-12,341326743>>,<<-1,242377883>>,<<0,713973588>>,<<12,75774987>>,<<-3,872340886>>,<<1,990166207>>,<<-1,765713528>>,<<0,175898578>>,<<0,0>>>>>>, b |-> <<<<0,41747491>>,<<0,0>>,<<0,0>>,<<0,0>>,<<0,0>>,<<-1,944547671>>,<<0,239312807>>,<<0,703510669>>,<<-1,240240386>>,<<0,660563031>>,<<0,158187483>>,<<-1,761890461>>,<<0,250000000>>>>]
}
Methods == {t.m : t \in TableauSet}
Tab(m) == CHOOSE t \in TableauSet : t.m = m
==============================================================================
