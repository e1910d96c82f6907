/-
The lemmas on what hangs below an id that pyvc uses as axioms: pyvc/contracts/delta.py (acyclic structures,
K04) and pyvc/contracts/surgery.py (trees, K03).
A heap says which element is under an id (AT), the id of an element (IDF), its children (KL, for surgery KN and KID) and the next id (CUR).
-/
import Mathlib.Tactic

open Classical Relation

namespace Tree

variable {Elem : Type} (isNode : Elem → Prop) (L : Elem)

structure Heap (Elem : Type) where
  at' : ℤ → Elem
  idf : Elem → ℤ
  kl : Elem → List ℤ
  cur : ℤ

variable {isNode}

def Child (isNode : Elem → Prop) (h : Heap Elem) (a b : ℤ) : Prop := isNode (h.at' a) ∧ b ∈ h.kl (h.at' a)

/-- MEM(SET(h, k), y), MEM(DSET(h, k), y) -/
def Below (isNode : Elem → Prop) (h : Heap Elem) (k y : ℤ) : Prop := ReflTransGen (Child isNode h) k y
/-- MEM(UN(h, l), y) -/
def Un (isNode : Elem → Prop) (h : Heap Elem) (l : List ℤ) (y : ℤ) : Prop := ∃ c ∈ l, Below isNode h c y

/-- delta.DAG -/
inductive Dag (isNode : Elem → Prop) (h : Heap Elem) : ℤ → Prop
  | leaf (k) : 0 ≤ k → k < h.cur → h.idf (h.at' k) = k → ¬ isNode (h.at' k) → Dag isNode h k
  | node (k) : 0 ≤ k → k < h.cur → h.idf (h.at' k) = k → isNode (h.at' k) → 1 ≤ (h.kl (h.at' k)).length →
      (∀ c ∈ h.kl (h.at' k), Dag isNode h c) → ¬ Un isNode h (h.kl (h.at' k)) k → Dag isNode h k

def DagL (isNode : Elem → Prop) (h : Heap Elem) (l : List ℤ) : Prop := ∀ c ∈ l, Dag isNode h c

/- delta.below, surgery.unfold: the definition of what is below, at one id -/

theorem below_iff (h : Heap Elem) (k y : ℤ) :
    Below isNode h k y ↔ y = k ∨ (isNode (h.at' k) ∧ Un isNode h (h.kl (h.at' k)) y) := by
  constructor
  · intro b
    rcases ReflTransGen.cases_head b with e | ⟨c, s, r⟩
    · exact Or.inl e.symm
    · exact Or.inr ⟨s.1, c, s.2, r⟩
  · rintro (rfl | ⟨n, c, m, r⟩)
    · exact ReflTransGen.refl
    · exact ReflTransGen.head ⟨n, m⟩ r

theorem below_self (h : Heap Elem) (k : ℤ) : Below isNode h k k := ReflTransGen.refl

theorem dag_range {h : Heap Elem} {k : ℤ} (d : Dag isNode h k) : 0 ≤ k ∧ k < h.cur ∧ h.idf (h.at' k) = k := by
  cases d <;> exact ⟨‹_›, ‹_›, ‹_›⟩

/-- delta.unfold -/
theorem dag_iff (h : Heap Elem) (k : ℤ) : Dag isNode h k ↔ 0 ≤ k ∧ k < h.cur ∧ h.idf (h.at' k) = k ∧
    (isNode (h.at' k) → 1 ≤ (h.kl (h.at' k)).length ∧ DagL isNode h (h.kl (h.at' k)) ∧ ¬ Un isNode h (h.kl (h.at' k)) k) := by
  constructor
  · intro d
    cases d with
    | leaf _ a b c d => exact ⟨a, b, c, fun n => absurd n d⟩
    | node _ a b c d e f g => exact ⟨a, b, c, fun _ => ⟨e, f, g⟩⟩
  · rintro ⟨a, b, c, d⟩
    by_cases n : isNode (h.at' k)
    · obtain ⟨e, f, g⟩ := d n
      exact Dag.node k a b c n e f g
    · exact Dag.leaf k a b c n

/-- What is below something acyclic is acyclic. -/
theorem dag_below {h : Heap Elem} {k y : ℤ} (d : Dag isNode h k) (b : Below isNode h k y) : Dag isNode h y := by
  induction b using ReflTransGen.head_induction_on with
  | refl => exact d
  | head s _ ih =>
    cases d with
    | leaf _ _ _ _ n => exact absurd s.1 n
    | node _ _ _ _ _ _ f _ => exact ih (f _ s.2)

theorem below_range {h : Heap Elem} {k y : ℤ} (d : Dag isNode h k) (b : Below isNode h k y) : 0 ≤ y ∧ y < h.cur :=
  ⟨(dag_range (dag_below d b)).1, (dag_range (dag_below d b)).2.1⟩

theorem un_range {h : Heap Elem} {l : List ℤ} {y : ℤ} (d : DagL isNode h l) (b : Un isNode h l y) : 0 ≤ y ∧ y < h.cur := by
  obtain ⟨c, m, b⟩ := b
  exact below_range (d c m) b

/-- Two different ids are not below each other. -/
theorem antisymm {h : Heap Elem} {k y : ℤ} (d : Dag isNode h k) (b : Below isNode h k y) (b' : Below isNode h y k) : y = k := by
  rcases (below_iff h k y).1 b with e | ⟨n, c, m, r⟩
  · exact e
  · cases d with
    | leaf _ _ _ _ n' => exact absurd n n'
    | node _ _ _ _ _ _ _ g => exact absurd ⟨c, m, ReflTransGen.trans r b'⟩ g

/- how often the leaf L is below an id (LC, SUML) -/

noncomputable def steps (isNode : Elem → Prop) (L : Elem) (h : Heap Elem) : ℕ → ℤ → ℤ
  | 0, _ => 0
  | n + 1, k => if isNode (h.at' k) then ((h.kl (h.at' k)).map (steps isNode L h n)).sum else if h.at' k = L then 1 else 0

theorem steps_stable {h : Heap Elem} {k : ℤ} (d : Dag isNode h k) : ∃ N, ∀ n ≥ N, steps isNode L h n k = steps isNode L h N k := by
  induction d with
  | leaf k _ _ _ n =>
    refine ⟨1, fun m hm => ?_⟩
    obtain ⟨m, rfl⟩ : ∃ m', m = m' + 1 := ⟨m - 1, by omega⟩
    simp [steps, n]
  | node k _ _ _ n _ _ _ ih =>
    have : ∃ N, ∀ c ∈ h.kl (h.at' k), ∀ m ≥ N, steps isNode L h m c = steps isNode L h N c := by
      revert ih
      generalize h.kl (h.at' k) = l
      intro ih
      induction l with
      | nil => exact ⟨0, by simp⟩
      | cons x r ihr =>
        obtain ⟨N1, h1⟩ := ih x (by simp)
        obtain ⟨N2, h2⟩ := ihr (fun c hc => ih c (by simp [hc]))
        refine ⟨max N1 N2, ?_⟩
        intro c hc m hm
        rcases List.mem_cons.1 hc with rfl | hc
        · rw [h1 m (by omega), h1 (max N1 N2) (by omega)]
        · rw [h2 c hc m (by omega), h2 c hc (max N1 N2) (by omega)]
    obtain ⟨N, hN⟩ := this
    refine ⟨N + 1, fun m hm => ?_⟩
    obtain ⟨m, rfl⟩ : ∃ m', m = m' + 1 := ⟨m - 1, by omega⟩
    simp only [steps, if_pos n]
    congr 1
    exact List.map_congr_left (fun c hc => hN c hc m (by omega))

noncomputable def LC (isNode : Elem → Prop) (L : Elem) (h : Heap Elem) (k : ℤ) : ℤ :=
  if d : Dag isNode h k then steps isNode L h (choose (steps_stable L d)) k else 0

noncomputable def SumL (isNode : Elem → Prop) (L : Elem) (h : Heap Elem) (l : List ℤ) : ℤ := (l.map (LC isNode L h)).sum

theorem lc_eq {h : Heap Elem} {k : ℤ} (d : Dag isNode h k) : ∃ N, ∀ n ≥ N, steps isNode L h n k = LC isNode L h k := by
  refine ⟨choose (steps_stable L d), fun n hn => ?_⟩
  rw [LC, dif_pos d]; exact choose_spec (steps_stable L d) n hn

theorem lc_list {h : Heap Elem} {l : List ℤ} (d : DagL isNode h l) : ∃ N, ∀ n ≥ N, (l.map (steps isNode L h n)).sum = SumL isNode L h l := by
  induction l with
  | nil => exact ⟨0, fun _ _ => rfl⟩
  | cons x r ih =>
    obtain ⟨N1, h1⟩ := lc_eq L (d x (by simp))
    obtain ⟨N2, h2⟩ := ih (fun c hc => d c (by simp [hc]))
    refine ⟨max N1 N2, fun n hn => ?_⟩
    simp only [SumL, List.map_cons, List.sum_cons] at h2 ⊢
    rw [h1 n (by omega), h2 n (by omega)]

/-- delta.axioms: the count of a leaf, of a node -/
theorem lc_def {h : Heap Elem} {k : ℤ} (d : Dag isNode h k) :
    LC isNode L h k = if isNode (h.at' k) then SumL isNode L h (h.kl (h.at' k)) else if h.at' k = L then 1 else 0 := by
  obtain ⟨N1, h1⟩ := lc_eq L d
  by_cases n : isNode (h.at' k)
  · have dl : DagL isNode h (h.kl (h.at' k)) := (((dag_iff h k).1 d).2.2.2 n).2.1
    obtain ⟨N2, h2⟩ := lc_list L dl
    rw [if_pos n, ← h1 (max N1 N2 + 1) (by omega), ← h2 (max N1 N2) (by omega)]
    simp [steps, n]
  · rw [if_neg n, ← h1 (N1 + 1) (by omega)]
    simp [steps, n]

theorem sum_cat (h : Heap Elem) (l m : List ℤ) : SumL isNode L h (l ++ m) = SumL isNode L h l + SumL isNode L h m := by simp [SumL]
theorem dag_cat (h : Heap Elem) (l m : List ℤ) : DagL isNode h (l ++ m) ↔ DagL isNode h l ∧ DagL isNode h m := by
  simp only [DagL, List.mem_append]
  exact ⟨fun x => ⟨fun c hc => x c (Or.inl hc), fun c hc => x c (Or.inr hc)⟩, fun x c hc => hc.elim (x.1 c) (x.2 c)⟩
theorem un_cat (h : Heap Elem) (l m : List ℤ) (y : ℤ) : Un isNode h (l ++ m) y ↔ Un isNode h l y ∨ Un isNode h m y := by
  simp only [Un, List.mem_append]
  exact ⟨fun ⟨c, hc, b⟩ => hc.elim (fun x => Or.inl ⟨c, x, b⟩) (fun x => Or.inr ⟨c, x, b⟩),
    fun x => x.elim (fun ⟨c, hc, b⟩ => ⟨c, Or.inl hc, b⟩) (fun ⟨c, hc, b⟩ => ⟨c, Or.inr hc, b⟩)⟩
theorem unit (h : Heap Elem) (k : ℤ) : SumL isNode L h [k] = LC isNode L h k ∧ (DagL isNode h [k] ↔ Dag isNode h k) ∧ ∀ y, Un isNode h [k] y ↔ Below isNode h k y := by
  simp [SumL, DagL, Un]
theorem sum_nil (h : Heap Elem) : SumL isNode L h [] = 0 ∧ DagL isNode h [] ∧ ∀ y, ¬ Un isNode h [] y := by simp [SumL, DagL, Un]

/- what is below is the same in heaps that agree on it -/

def Agree (isNode : Elem → Prop) (h h1 : Heap Elem) (y : ℤ) : Prop :=
  h1.at' y = h.at' y ∧ h1.idf (h.at' y) = h.idf (h.at' y) ∧ (isNode (h.at' y) → h1.kl (h.at' y) = h.kl (h.at' y))

theorem below_same {h h1 : Heap Elem} {k : ℤ} (a : ∀ y, Below isNode h k y → Agree isNode h h1 y) (y : ℤ) : Below isNode h1 k y ↔ Below isNode h k y := by
  constructor
  · intro b
    induction b with
    | refl => exact ReflTransGen.refl
    | tail b s ih =>
      obtain ⟨e1, _, e3⟩ := a _ ih
      refine ReflTransGen.tail ih ?_
      unfold Child at s ⊢
      rw [e1] at s
      rw [← e3 s.1]; exact s
  · intro b
    induction b with
    | refl => exact ReflTransGen.refl
    | tail b s ih =>
      obtain ⟨e1, _, e3⟩ := a _ b
      refine ReflTransGen.tail ih ?_
      unfold Child at s ⊢
      rw [e1, e3 s.1]; exact s

theorem dag_same {h h1 : Heap Elem} {k : ℤ} (d : Dag isNode h k) (c : h.cur ≤ h1.cur) (a : ∀ y, Below isNode h k y → Agree isNode h h1 y) :
    Dag isNode h1 k ∧ (∀ y, Below isNode h1 k y ↔ Below isNode h k y) ∧ LC isNode L h1 k = LC isNode L h k := by
  induction d with
  | leaf k p q r n =>
    obtain ⟨e1, e2, _⟩ := a k ReflTransGen.refl
    have d1 : Dag isNode h1 k := Dag.leaf k p (by omega) (by rw [e1, e2, r]) (by rw [e1]; exact n)
    refine ⟨d1, below_same a, ?_⟩
    rw [lc_def L d1, lc_def L (Dag.leaf k p q r n), e1]; simp [n]
  | node k p q r n len f g ih =>
    obtain ⟨e1, e2, e3⟩ := a k ReflTransGen.refl
    have e3 := e3 n
    have sub : ∀ c ∈ h.kl (h.at' k), ∀ y, Below isNode h c y → Agree isNode h h1 y :=
      fun c m y b => a y (ReflTransGen.head ⟨n, m⟩ b)
    have is := fun c m => ih c m (sub c m)
    have d1 : Dag isNode h1 k := by
      refine Dag.node k p (by omega) (by rw [e1, e2, r]) (by rw [e1]; exact n) (by rw [e1, e3]; exact len) ?_ ?_
      · rw [e1, e3]; exact fun c m => (is c m).1
      · rw [e1, e3]
        rintro ⟨c, m, b⟩
        exact g ⟨c, m, ((is c m).2.1 k).1 b⟩
    refine ⟨d1, below_same a, ?_⟩
    rw [lc_def L d1, lc_def L (Dag.node k p q r n len f g), e1, e3, if_pos n, if_pos n]
    unfold SumL
    congr 1
    exact List.map_congr_left (fun c m => (is c m).2.2)

/-- for lists -/
theorem list_same {h h1 : Heap Elem} {l : List ℤ} (d : DagL isNode h l) (c : h.cur ≤ h1.cur) (a : ∀ y, Un isNode h l y → Agree isNode h h1 y) :
    DagL isNode h1 l ∧ (∀ y, Un isNode h1 l y ↔ Un isNode h l y) ∧ SumL isNode L h1 l = SumL isNode L h l := by
  have s := fun x m => dag_same L (d x m) c (fun y b => a y ⟨x, m, b⟩)
  refine ⟨fun x m => (s x m).1, fun y => ?_, ?_⟩
  · exact ⟨fun ⟨x, m, b⟩ => ⟨x, m, ((s x m).2.1 y).1 b⟩, fun ⟨x, m, b⟩ => ⟨x, m, ((s x m).2.1 y).2 b⟩⟩
  · unfold SumL; congr 1; exact List.map_congr_left (fun x m => (s x m).2.2)

/-- delta.put_kids: the element e gets other children. -/
noncomputable def put (h : Heap Elem) (e : Elem) (t : List ℤ) : Heap Elem := { h with kl := fun x => if x = e then t else h.kl x }

theorem put_agree {h : Heap Elem} {e : Elem} {t : List ℤ} {y : ℤ} (d : Dag isNode h y) (n : y ≠ h.idf e) : Agree isNode h (put h e t) y := by
  have : h.at' y ≠ e := fun c => n (by rw [← c, (dag_range d).2.2])
  exact ⟨rfl, rfl, fun _ => by simp [put, this]⟩

theorem put_same {h : Heap Elem} {e : Elem} {t : List ℤ} {k : ℤ} (d : Dag isNode h k) (n : ¬ Below isNode h k (h.idf e)) :
    Dag isNode (put h e t) k ∧ (∀ y, Below isNode (put h e t) k y ↔ Below isNode h k y) ∧ LC isNode L (put h e t) k = LC isNode L h k :=
  dag_same L d le_rfl (fun _ b => put_agree (dag_below d b) (fun c => n (c ▸ b)))

theorem put_list_same {h : Heap Elem} {e : Elem} {t l : List ℤ} (d : DagL isNode h l) (n : ¬ Un isNode h l (h.idf e)) :
    DagL isNode (put h e t) l ∧ (∀ y, Un isNode (put h e t) l y ↔ Un isNode h l y) ∧ SumL isNode L (put h e t) l = SumL isNode L h l :=
  list_same L d le_rfl (fun _ ⟨x, m, b⟩ => put_agree (dag_below (d x m) b) (fun c => n (c ▸ ⟨x, m, b⟩)))

/-- delta.CreateNode: a new element under the next id. -/
noncomputable def create (h : Heap Elem) (N : Elem) (t : List ℤ) : Heap Elem :=
  { at' := fun y => if y = h.cur then N else h.at' y
    idf := fun x => if x = N then h.cur else h.idf x
    kl := fun x => if x = N then t else h.kl x
    cur := h.cur + 1 }

theorem create_same {h : Heap Elem} {N : Elem} {t : List ℤ} (new : ∀ y, 0 ≤ y → y < h.cur → h.at' y ≠ N) :
    (∀ k, Dag isNode h k → Dag isNode (create h N t) k ∧ (∀ y, Below isNode (create h N t) k y ↔ Below isNode h k y)
        ∧ LC isNode L (create h N t) k = LC isNode L h k ∧ (create h N t).at' k = h.at' k)
    ∧ (∀ l, DagL isNode h l → DagL isNode (create h N t) l ∧ (∀ y, Un isNode (create h N t) l y ↔ Un isNode h l y)
        ∧ SumL isNode L (create h N t) l = SumL isNode L h l) := by
  have ag : ∀ y, Dag isNode h y → Agree isNode h (create h N t) y := by
    intro y d
    obtain ⟨a, b, _⟩ := dag_range d
    have n := new y a b
    have c : y ≠ h.cur := by omega
    exact ⟨by simp [create, c], by simp [create, n], fun _ => by simp [create, n]⟩
  refine ⟨fun k d => ?_, fun l d => ?_⟩
  · obtain ⟨a, b, c⟩ := dag_same (h1 := create h N t) L d (by simp [create]) (fun y b => ag y (dag_below d b))
    exact ⟨a, b, c, (ag k d).1⟩
  · exact list_same L d (by simp [create]) (fun y ⟨x, m, b⟩ => ag y (dag_below (d x m) b))

/- delta.assign_kids: other children, with the same leaves, from what was below the element at first -/

/-- Induction over what is below. -/
theorem below_induction {b : Heap Elem} {P : ℤ → Prop}
    (step : ∀ q, Dag isNode b q → (∀ y, Below isNode b q y → y ≠ q → P y) → P q) : ∀ q, Dag isNode b q → P q := by
  intro q d
  suffices h : ∀ y, Below isNode b q y → P y from h q ReflTransGen.refl
  induction d with
  | leaf k p q r n =>
    intro y hy
    rcases (below_iff b k y).1 hy with rfl | ⟨c, _⟩
    · refine step y (Dag.leaf y p q r n) (fun z hz ne => ?_)
      rcases (below_iff b y z).1 hz with e | ⟨c, _⟩
      · exact absurd e ne
      · exact absurd c n
    · exact absurd c n
  | node k p q r n len f g ih =>
    intro y hy
    rcases (below_iff b k y).1 hy with rfl | ⟨_, c, m, bl⟩
    · refine step y (Dag.node y p q r n len f g) (fun z hz ne => ?_)
      rcases (below_iff b y z).1 hz with e | ⟨_, c, m, bl⟩
      · exact absurd e ne
      · exact ih c m z bl
    · exact ih c m y bl

/-- kept(b, h, .): the first claims -/
structure Kept (isNode : Elem → Prop) (L : Elem) (b h : Heap Elem) : Prop where
  dag : ∀ k, Dag isNode b k → Dag isNode h k ∧ LC isNode L h k = LC isNode L b k ∧ h.at' k = b.at' k
  less : ∀ k y, Dag isNode b k → Below isNode h k y → Below isNode b k y

theorem kept_lists {b h : Heap Elem} (kp : Kept isNode L b h) (l : List ℤ) (d : DagL isNode b l) :
    DagL isNode h l ∧ SumL isNode L h l = SumL isNode L b l ∧ ∀ y, Un isNode h l y → Un isNode b l y := by
  refine ⟨fun c m => (kp.dag c (d c m)).1, ?_, fun y ⟨c, m, x⟩ => ⟨c, m, kp.less c y (d c m) x⟩⟩
  unfold SumL; congr 1; exact List.map_congr_left (fun c m => (kp.dag c (d c m)).2.1)

theorem assign_kids {b h : Heap Elem} {e : Elem} {k : ℤ} {t : List ℤ} (kp : Kept isNode L b h)
    (kb : b.idf e = k) (db : Dag isNode b k) (ab : b.at' k = e) (kh : h.idf e = k) (ah : h.at' k = e) (ne : isNode e)
    (len : 1 ≤ t.length) (dt : DagL isNode h t) (st : SumL isNode L h t = LC isNode L h k)
    (ut : ∀ y, Un isNode h t y → Un isNode b (b.kl e) y) : Kept isNode L b (put h e t) := by
  have nk : ¬ Un isNode b (b.kl e) k := by
    have := (((dag_iff b k).1 db).2.2.2 (by rw [ab]; exact ne)).2.2
    rwa [ab] at this
  have tk : ¬ Un isNode h t (h.idf e) := by rw [kh]; exact fun x => nk (ut k x)
  have pl := put_list_same (t := t) L dt tk
  have main : ∀ q, Dag isNode b q → Dag isNode (put h e t) q ∧ LC isNode L (put h e t) q = LC isNode L b q
      ∧ ∀ y, Below isNode (put h e t) q y → Below isNode b q y := by
    refine below_induction (b := b) (isNode := isNode) (P := fun q => _) ?_
    intro q dq ih
    obtain ⟨hd, hl, ha⟩ := kp.dag q dq
    obtain ⟨r1, r2, r3⟩ := dag_range hd
    by_cases qk : q = k
    · subst qk
      have nd : isNode ((put h e t).at' q) := by show isNode (h.at' q); rw [ah]; exact ne
      have kl : (put h e t).kl ((put h e t).at' q) = t := by show (if h.at' q = e then t else _) = t; rw [if_pos ah]
      have d1 : Dag isNode (put h e t) q := by
        refine Dag.node q r1 r2 r3 nd (by rw [kl]; exact len) (by rw [kl]; exact pl.1) ?_
        rw [kl, pl.2.1, ← kh]; exact tk
      refine ⟨d1, ?_, ?_⟩
      · rw [lc_def L d1, if_pos nd, kl, pl.2.2, st, hl]
      · intro y hy
        rcases (below_iff _ q y).1 hy with rfl | ⟨_, u⟩
        · exact ReflTransGen.refl
        · rw [kl, pl.2.1] at u
          exact (below_iff b q y).2 (Or.inr ⟨by rw [ab]; exact ne, by rw [ab]; exact ut y u⟩)
    · have ane : h.at' q ≠ e := fun c => qk (by rw [← r3, c, kh])
      have kl : (put h e t).kl ((put h e t).at' q) = h.kl (h.at' q) := by
        show (if h.at' q = e then t else h.kl (h.at' q)) = _; rw [if_neg ane]
      by_cases n : isNode (h.at' q)
      · have ⟨len1, dl, nu⟩ := ((dag_iff h q).1 hd).2.2.2 n
        have sub : ∀ c ∈ h.kl (h.at' q), Below isNode b q c ∧ c ≠ q := by
          intro c m
          refine ⟨kp.less q c dq (ReflTransGen.single ⟨n, m⟩), ?_⟩
          rintro rfl
          exact nu ⟨_, m, ReflTransGen.refl⟩
        have is := fun c m => ih c (sub c m).1 (sub c m).2
        have d1 : Dag isNode (put h e t) q := by
          refine Dag.node q r1 r2 r3 n (by rw [kl]; exact len1) (by rw [kl]; exact fun c m => (is c m).1) ?_
          rw [kl]
          rintro ⟨c, m, x⟩
          exact (sub c m).2 (antisymm dq (sub c m).1 ((is c m).2.2 q x))
        refine ⟨d1, ?_, ?_⟩
        · have n1 : isNode ((put h e t).at' q) := n
          rw [lc_def L d1, if_pos n1, kl, ← hl, lc_def L hd, if_pos n]
          unfold SumL; congr 1
          refine List.map_congr_left (fun c m => ?_)
          rw [(is c m).2.1, (kp.dag c (dag_below dq (sub c m).1)).2.1]
        · intro y hy
          rcases (below_iff _ q y).1 hy with rfl | ⟨_, c, m, x⟩
          · exact ReflTransGen.refl
          · rw [kl] at m
            exact ReflTransGen.trans (sub c m).1 ((is c m).2.2 y x)
      · have d1 : Dag isNode (put h e t) q := Dag.leaf q r1 r2 r3 n
        refine ⟨d1, ?_, ?_⟩
        · have n1 : ¬ isNode ((put h e t).at' q) := n
          rw [lc_def L d1, if_neg n1, ← hl, lc_def L hd, if_neg n]; rfl
        · intro y hy
          rcases (below_iff _ q y).1 hy with rfl | ⟨c, _⟩
          · exact ReflTransGen.refl
          · exact absurd c n
  exact ⟨fun q d => ⟨(main q d).1, (main q d).2.1, (kp.dag q d).2.2⟩, fun q y d x => (main q d).2.2 y x⟩

/- surgery: trees -/

/-- surgery.TREE: different children have nothing in common. -/
inductive IsTree (isNode : Elem → Prop) (h : Heap Elem) : ℤ → Prop
  | leaf (k) : 0 ≤ k → k < h.cur → h.idf (h.at' k) = k → ¬ isNode (h.at' k) → IsTree isNode h k
  | node (k) : 0 ≤ k → k < h.cur → h.idf (h.at' k) = k → isNode (h.at' k) → 1 ≤ (h.kl (h.at' k)).length →
      (∀ c ∈ h.kl (h.at' k), IsTree isNode h c) → (∀ c ∈ h.kl (h.at' k), ¬ Below isNode h c k) →
      (h.kl (h.at' k)).Pairwise (fun a b => ∀ y, Below isNode h a y → ¬ Below isNode h b y) → IsTree isNode h k

/-- LIN(h, k): the leaf L is below k -/
def Lin (isNode : Elem → Prop) (L : Elem) (h : Heap Elem) (k : ℤ) : Prop := ∃ y, Below isNode h k y ∧ ¬ isNode (h.at' y) ∧ h.at' y = L

theorem tree_range {h : Heap Elem} {k : ℤ} (d : IsTree isNode h k) : 0 ≤ k ∧ k < h.cur ∧ h.idf (h.at' k) = k := by
  cases d <;> exact ⟨‹_›, ‹_›, ‹_›⟩

/-- surgery.axioms and surgery.unfold: what a tree is -/
theorem tree_iff (h : Heap Elem) (k : ℤ) : IsTree isNode h k ↔ 0 ≤ k ∧ k < h.cur ∧ h.idf (h.at' k) = k ∧
    (isNode (h.at' k) → 1 ≤ (h.kl (h.at' k)).length ∧ (∀ c ∈ h.kl (h.at' k), IsTree isNode h c ∧ ¬ Below isNode h c k)
      ∧ (h.kl (h.at' k)).Pairwise (fun a b => ∀ y, Below isNode h a y → ¬ Below isNode h b y)) := by
  constructor
  · intro d
    cases d with
    | leaf _ a b c d => exact ⟨a, b, c, fun n => absurd n d⟩
    | node _ a b c d e f g i => exact ⟨a, b, c, fun _ => ⟨e, fun x m => ⟨f x m, g x m⟩, i⟩⟩
  · rintro ⟨a, b, c, d⟩
    by_cases n : isNode (h.at' k)
    · obtain ⟨e, f, g⟩ := d n
      exact IsTree.node k a b c n e (fun x m => (f x m).1) (fun x m => (f x m).2) g
    · exact IsTree.leaf k a b c n

theorem tree_below {h : Heap Elem} {k y : ℤ} (d : IsTree isNode h k) (b : Below isNode h k y) : IsTree isNode h y := by
  induction b using ReflTransGen.head_induction_on with
  | refl => exact d
  | head s _ ih =>
    cases d with
    | leaf _ _ _ _ n => exact absurd s.1 n
    | node _ _ _ _ _ _ f _ _ => exact ih (f _ s.2)

/-- ids of a tree are those of its elements -/
theorem tree_ids {h : Heap Elem} {k y : ℤ} (d : IsTree isNode h k) (b : Below isNode h k y) : 0 ≤ y ∧ y < h.cur ∧ h.idf (h.at' y) = y :=
  tree_range (tree_below d b)

theorem lin_leaf (h : Heap Elem) (k : ℤ) (n : ¬ isNode (h.at' k)) : Lin isNode L h k ↔ h.at' k = L := by
  constructor
  · rintro ⟨y, b, _, e⟩
    rcases (below_iff h k y).1 b with rfl | ⟨c, _⟩
    · exact e
    · exact absurd c n
  · exact fun e => ⟨k, ReflTransGen.refl, n, e⟩

theorem lin_node (h : Heap Elem) (k : ℤ) (n : isNode (h.at' k)) : Lin isNode L h k ↔ ∃ c ∈ h.kl (h.at' k), Lin isNode L h c := by
  constructor
  · rintro ⟨y, b, m, e⟩
    rcases (below_iff h k y).1 b with rfl | ⟨_, c, hc, x⟩
    · exact absurd n m
    · exact ⟨c, hc, y, x, m, e⟩
  · rintro ⟨c, hc, y, x, m, e⟩
    exact ⟨y, ReflTransGen.head ⟨n, hc⟩ x, m, e⟩

/-- surgery.same_below: the heaps differ at an id below, or what is below is the same. -/
theorem tree_same {h h1 : Heap Elem} {k : ℤ} (d : IsTree isNode h k) (c : h.cur ≤ h1.cur) :
    (∃ y, Below isNode h k y ∧ ¬ Agree isNode h h1 y)
    ∨ (IsTree isNode h1 k ∧ (∀ y, Below isNode h1 k y ↔ Below isNode h k y) ∧ (Lin isNode L h1 k ↔ Lin isNode L h k)) := by
  by_cases x : ∃ y, Below isNode h k y ∧ ¬ Agree isNode h h1 y
  · exact Or.inl x
  · push Not at x
    refine Or.inr ⟨?_, below_same x, ?_⟩
    · induction d with
      | leaf k p q r n =>
        obtain ⟨e1, e2, _⟩ := x k ReflTransGen.refl
        exact IsTree.leaf k p (by omega) (by rw [e1, e2, r]) (by rw [e1]; exact n)
      | node k p q r n len f g i ih =>
        obtain ⟨e1, e2, e3⟩ := x k ReflTransGen.refl
        have e3 := e3 n
        have sub : ∀ c ∈ h.kl (h.at' k), ∀ y, Below isNode h c y → Agree isNode h h1 y :=
          fun c m y b => x y (ReflTransGen.head ⟨n, m⟩ b)
        refine IsTree.node k p (by omega) (by rw [e1, e2, r]) (by rw [e1]; exact n) (by rw [e1, e3]; exact len) ?_ ?_ ?_
        · rw [e1, e3]; exact fun c m => ih c m (sub c m)
        · rw [e1, e3]
          intro c m b
          exact g c m ((below_same (sub c m) k).1 b)
        · rw [e1, e3]
          refine List.Pairwise.imp_of_mem ?_ i
          intro a b ha hb hd y y1 y2
          exact hd y ((below_same (sub a ha) y).1 y1) ((below_same (sub b hb) y).1 y2)
    · constructor
      · rintro ⟨y, b, m, e⟩
        have b' := (below_same x y).1 b
        rw [(x y b').1] at m e
        exact ⟨y, b', m, e⟩
      · rintro ⟨y, b, m, e⟩
        refine ⟨y, (below_same x y).2 b, ?_, ?_⟩ <;> rw [(x y b).1] <;> assumption

end Tree

#print axioms Tree.assign_kids
#print axioms Tree.create_same
#print axioms Tree.tree_same
#print axioms Tree.lc_def
