---------------------------- MODULE ScenarioFile ----------------------------
(***************************************************************************)
(* What a scenario file describes and what loading it must yield.          *)
(* A heliostat has parts (surface, kin, act) of its own or takes those of  *)
(* the prototype; kinematics type and actuator type make up its group.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

HasPart(h, part) == part \in DOMAIN h
PartOf(h, proto, part) == IF HasPart(h, part) THEN h[part] ELSE proto[part]

KinTypes == {"rigid_body"}
ActTypes == {"ideal", "linear"}
LightTypes == {"sun"}

SaneActs(acts) == /\ Len(acts) = 2
                  /\ \A k \in 1..Len(acts) : acts[k].type \in ActTypes /\ acts[k].type = acts[1].type
KeyOf(h, proto) == <<PartOf(h, proto, "kin").type, PartOf(h, proto, "act")[1].type>>

Distinct(q) == \A a, b \in 1..Len(q) : a # b => q[a] # q[b]

\* d: the description
Acceptable(d) ==
    /\ Distinct([k \in 1..Len(d.hel) |-> d.hel[k].name])
    /\ Distinct([k \in 1..Len(d.planar) |-> d.planar[k].name] \o [k \in 1..Len(d.cyl) |-> d.cyl[k].name])
    /\ Distinct([k \in 1..Len(d.lights) |-> d.lights[k].key])
    /\ \A k \in 1..Len(d.lights) : d.lights[k].type \in LightTypes
    /\ d.proto.kin.type \in KinTypes /\ SaneActs(d.proto.act)
    /\ \A k \in 1..Len(d.hel) :
         LET h == d.hel[k]
         IN  /\ HasPart(h, "kin") => h.kin.type \in KinTypes
             /\ HasPart(h, "act") => SaneActs(h.act)
             /\ HasPart(h, "surface") => Len(h.surface.facets) = Len(d.proto.surface.facets)
=============================================================================
