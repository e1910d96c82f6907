/-
The lemmas on what is finished and what is in progress that pyvc/contracts/alpha.py (K01) uses as axioms.
A heap says which element is under an id (AT), the id of an element (IDF), its children (KL), its layers (LAY, LID), whether its list of
children is its own (UNS), to what an id belongs and as what (OWN, ROLE: ghost), and the next id (CUR).
-/
import Mathlib.Tactic

open Classical

namespace Alpha

variable {Elem : Type} (isNode : Elem → Prop) (T : Elem → Prop) (LP LQ : Elem → List ℤ)

structure Heap (Elem : Type) where
  at' : ℤ → Elem
  idf : Elem → ℤ
  kl : Elem → List ℤ
  lay : Elem → List ℤ
  lid : Elem → ℤ
  uns : Elem → Prop
  own : ℤ → ℤ
  role : ℤ → ℤ
  cur : ℤ

noncomputable def one (x : Elem) : ℤ := if T x then 1 else 0

/- how often the token is below an id -/

/-- what is below k has at most n levels -/
def Lev (h : Heap Elem) : ℕ → ℤ → Prop
  | 0, _ => False
  | n + 1, k => 0 ≤ k ∧ k < h.cur ∧ (isNode (h.at' k) → ∀ c ∈ h.kl (h.at' k), Lev h n c)

/-- FIN -/
def Fin' (h : Heap Elem) (k : ℤ) : Prop := ∃ n, Lev isNode h n k

/-- RK -/
noncomputable def rk (h : Heap Elem) (k : ℤ) : ℕ := if f : Fin' isNode h k then Nat.find f else 0

noncomputable def steps (h : Heap Elem) : ℕ → ℤ → ℤ
  | 0, _ => 0
  | n + 1, k => if isNode (h.at' k) then ((h.kl (h.at' k)).map (steps h n)).sum else one T (h.at' k)

noncomputable def LC (h : Heap Elem) (k : ℤ) : ℤ := steps isNode T h (rk isNode h k) k
noncomputable def SumL (h : Heap Elem) (l : List ℤ) : ℤ := (l.map (LC isNode T h)).sum

variable {isNode}

theorem lev_rk {h : Heap Elem} {k : ℤ} (f : Fin' isNode h k) : Lev isNode h (rk isNode h k) k := by
  rw [rk, dif_pos f]; exact Nat.find_spec f

theorem rk_le {h : Heap Elem} {n : ℕ} {k : ℤ} (f : Lev isNode h n k) : rk isNode h k ≤ n := by
  rw [rk, dif_pos ⟨n, f⟩]; exact Nat.find_min' _ f

theorem steps_stable {h : Heap Elem} (n : ℕ) : ∀ k, Lev isNode h n k → ∀ m ≥ n, steps isNode T h m k = steps isNode T h n k := by
  induction n with
  | zero => intro k x; exact x.elim
  | succ n ih =>
    intro k x m hm
    obtain ⟨m, rfl⟩ : ∃ m', m = m' + 1 := ⟨m - 1, by omega⟩
    by_cases c : isNode (h.at' k)
    · simp only [steps, if_pos c]
      congr 1
      exact List.map_congr_left (fun y hy => ih y (x.2.2 c y hy) m (by omega))
    · simp [steps, c]

theorem steps_lc {h : Heap Elem} {n : ℕ} {k : ℤ} (x : Lev isNode h n k) : steps isNode T h n k = LC isNode T h k :=
  steps_stable T _ k (lev_rk ⟨n, x⟩) n (rk_le x)

/-- the count of a leaf, and of a node -/
theorem lc_def {h : Heap Elem} {k : ℤ} (f : Fin' isNode h k) :
    LC isNode T h k = if isNode (h.at' k) then SumL isNode T h (h.kl (h.at' k)) else one T (h.at' k) := by
  obtain ⟨n, x⟩ := f
  rw [← steps_lc T x]
  cases n with
  | zero => exact x.elim
  | succ n =>
    by_cases c : isNode (h.at' k)
    · simp only [steps, if_pos c, SumL]
      congr 1
      exact List.map_congr_left (fun y hy => steps_lc T (x.2.2 c y hy))
    · simp [steps, c]

theorem fin_child {h : Heap Elem} {k c : ℤ} (f : Fin' isNode h k) (n : isNode (h.at' k)) (m : c ∈ h.kl (h.at' k)) :
    Fin' isNode h c ∧ rk isNode h c < rk isNode h k := by
  have x := lev_rk f
  cases e : rk isNode h k with
  | zero => rw [e] at x; exact x.elim
  | succ r =>
    rw [e] at x
    have y := x.2.2 n c m
    exact ⟨⟨r, y⟩, by have := rk_le y; omega⟩

theorem fin_of {h : Heap Elem} {k : ℤ} (a : 0 ≤ k) (b : k < h.cur) (f : isNode (h.at' k) → ∀ c ∈ h.kl (h.at' k), Fin' isNode h c) : Fin' isNode h k := by
  have mono : ∀ n k, Lev isNode h n k → ∀ m ≥ n, Lev isNode h m k := by
    intro n
    induction n with
    | zero => intro k x; exact x.elim
    | succ n ih =>
      intro k x m hm
      obtain ⟨m, rfl⟩ : ∃ m', m = m' + 1 := ⟨m - 1, by omega⟩
      exact ⟨x.1, x.2.1, fun c y hy => ih y (x.2.2 c y hy) m (by omega)⟩
  by_cases c : isNode (h.at' k)
  · have f := f c
    suffices ∃ n, ∀ y ∈ h.kl (h.at' k), Lev isNode h n y by
      obtain ⟨n, x⟩ := this
      exact ⟨n + 1, a, b, fun _ => x⟩
    revert f
    generalize h.kl (h.at' k) = l
    intro f
    induction l with
    | nil => exact ⟨0, by simp⟩
    | cons y r ih =>
      obtain ⟨n1, h1⟩ := f y (by simp)
      obtain ⟨n2, h2⟩ := ih (fun c hc => f c (by simp [hc]))
      refine ⟨max n1 n2, fun z hz => ?_⟩
      rcases List.mem_cons.1 hz with rfl | hz
      · exact mono _ _ h1 _ (by omega)
      · exact mono _ _ (h2 z hz) _ (by omega)
  · exact ⟨1, a, b, fun x => absurd x c⟩

/- what is finished -/

inductive Dag (isNode : Elem → Prop) (h : Heap Elem) : ℤ → Prop
  | mk (k) : 0 ≤ k → k < h.cur → h.own k = -1 → h.idf (h.at' k) = k →
      (isNode (h.at' k) → 1 ≤ (h.kl (h.at' k)).length) → (isNode (h.at' k) → ∀ c ∈ h.kl (h.at' k), Dag isNode h c) → Dag isNode h k

def DagL (isNode : Elem → Prop) (h : Heap Elem) (l : List ℤ) : Prop := ∀ c ∈ l, Dag isNode h c

/-- alpha.finished, and the first axiom -/
theorem dag_iff (h : Heap Elem) (k : ℤ) : Dag isNode h k ↔ 0 ≤ k ∧ k < h.cur ∧ h.own k = -1 ∧ h.idf (h.at' k) = k ∧
    (isNode (h.at' k) → 1 ≤ (h.kl (h.at' k)).length ∧ DagL isNode h (h.kl (h.at' k))) := by
  constructor
  · rintro ⟨_, a, b, c, d, e, f⟩
    exact ⟨a, b, c, d, fun n => ⟨e n, f n⟩⟩
  · rintro ⟨a, b, c, d, e⟩
    exact Dag.mk k a b c d (fun n => (e n).1) (fun n => (e n).2)

theorem dag_fin {h : Heap Elem} {k : ℤ} (d : Dag isNode h k) : Fin' isNode h k := by
  induction d with
  | mk k a b _ _ _ _ ih => exact fin_of a b ih

theorem dag_lc {h : Heap Elem} {k : ℤ} (d : Dag isNode h k) :
    LC isNode T h k = if isNode (h.at' k) then SumL isNode T h (h.kl (h.at' k)) else one T (h.at' k) := lc_def T (dag_fin d)

theorem sum_cat (h : Heap Elem) (l m : List ℤ) : SumL isNode T h (l ++ m) = SumL isNode T h l + SumL isNode T h m := by simp [SumL]
theorem dag_cat (h : Heap Elem) (l m : List ℤ) : DagL isNode h (l ++ m) ↔ DagL isNode h l ∧ DagL isNode h m := by
  simp only [DagL, List.mem_append]
  exact ⟨fun x => ⟨fun c hc => x c (Or.inl hc), fun c hc => x c (Or.inr hc)⟩, fun x c hc => hc.elim (x.1 c) (x.2 c)⟩

/-- READY: every id that is reached is that of an element -/
def Ready (isNode : Elem → Prop) (h : Heap Elem) (k : ℤ) : Prop :=
  ∀ y, Relation.ReflTransGen (fun a b => isNode (h.at' a) ∧ b ∈ h.kl (h.at' a)) k y → 0 ≤ y ∧ y < h.cur ∧ h.idf (h.at' y) = y

theorem ready_child {h : Heap Elem} {k c : ℤ} (r : Ready isNode h k) (n : isNode (h.at' k)) (m : c ∈ h.kl (h.at' k)) : Ready isNode h c :=
  fun y b => r y (Relation.ReflTransGen.head ⟨n, m⟩ b)

theorem ready_of {h : Heap Elem} {k : ℤ} (a : 0 ≤ k ∧ k < h.cur ∧ h.idf (h.at' k) = k)
    (r : isNode (h.at' k) → ∀ c ∈ h.kl (h.at' k), Ready isNode h c) : Ready isNode h k := by
  intro y b
  rcases Relation.ReflTransGen.cases_head b with e | ⟨c, s, b⟩
  · exact e ▸ a
  · exact r s.1 c s.2 y b

theorem dag_ready {h : Heap Elem} {k : ℤ} (d : Dag isNode h k) : Ready isNode h k := by
  induction d with
  | mk k a b _ i _ _ ih => exact ready_of ⟨a, b, i⟩ ih

/- what is in progress -/

/-- LAYER -/
def Layer (isNode : Elem → Prop) (LP LQ : Elem → List ℤ) (h : Heap Elem) (o k : ℤ) : Prop :=
  0 ≤ k ∧ k < h.cur ∧ k ≠ o ∧ 0 ≤ o ∧ h.own k = o ∧ h.role k = 2 ∧ h.idf (h.at' k) = k ∧ isNode (h.at' k) ∧ h.uns (h.at' k) ∧
  h.kl (h.at' k) = LP (h.at' k) ++ ([-1] ++ LQ (h.at' k)) ∧ DagL isNode h (LP (h.at' k)) ∧ DagL isNode h (LQ (h.at' k)) ∧
  1 ≤ (LP (h.at' k)).length + (LQ (h.at' k)).length

noncomputable def LLC (isNode : Elem → Prop) (T : Elem → Prop) (LP LQ : Elem → List ℤ) (h : Heap Elem) (k : ℤ) : ℤ :=
  SumL isNode T h (LP (h.at' k)) + SumL isNode T h (LQ (h.at' k))

def LayL (isNode : Elem → Prop) (LP LQ : Elem → List ℤ) (h : Heap Elem) (o : ℤ) (l : List ℤ) : Prop := (∀ c ∈ l, Layer isNode LP LQ h o c) ∧ l.Nodup

noncomputable def SumLL (isNode : Elem → Prop) (T : Elem → Prop) (LP LQ : Elem → List ℤ) (h : Heap Elem) (l : List ℤ) : ℤ := (l.map (LLC isNode T LP LQ h)).sum

theorem layl_rev (h : Heap Elem) (o : ℤ) (l : List ℤ) : LayL isNode LP LQ h o l.reverse ↔ LayL isNode LP LQ h o l := by simp [LayL]
theorem sumll_rev (h : Heap Elem) (l : List ℤ) : SumLL isNode T LP LQ h l.reverse = SumLL isNode T LP LQ h l := by simp [SumLL, List.sum_reverse]

/-- one more layer -/
theorem layl_more {h : Heap Elem} {o v : ℤ} {l : List ℤ} (a : LayL isNode LP LQ h o l) (b : Layer isNode LP LQ h o v) :
    LayL isNode LP LQ h o (l ++ [v]) ∨ v ∈ l := by
  by_cases m : v ∈ l
  · exact Or.inr m
  · refine Or.inl ⟨fun c hc => ?_, ?_⟩
    · rcases List.mem_append.1 hc with x | x
      · exact a.1 c x
      · rw [List.mem_singleton.1 x]; exact b
    · rw [List.nodup_append]
      refine ⟨a.2, by simp, ?_⟩
      intro x hx y hy e
      rw [List.mem_singleton] at hy
      exact m (by rw [← hy, ← e]; exact hx)

/-- the first child of what is in progress (f: its id) -/
def First (isNode : Elem → Prop) (h : Heap Elem) (p f : ℤ) : Prop :=
  0 ≤ f ∧ f < h.cur ∧ f ≠ p ∧ h.own f = p ∧ h.role f = 1 ∧ h.idf (h.at' f) = f ∧
  (isNode (h.at' f) → h.uns (h.at' f) ∧ 1 ≤ (h.kl (h.at' f)).length ∧ DagL isNode h (h.kl (h.at' f)))

/-- alpha.prog_def -/
def Prog (isNode : Elem → Prop) (LP LQ : Elem → List ℤ) (h : Heap Elem) (p : ℤ) : Prop :=
  0 ≤ p ∧ p < h.cur ∧ h.own p = p ∧ h.role p = 0 ∧ h.idf (h.at' p) = p ∧
  (isNode (h.at' p) → h.uns (h.at' p) ∧ h.lid (h.at' p) = -1 ∧ LayL isNode LP LQ h p (h.lay (h.at' p)) ∧
    ∃ f r, h.kl (h.at' p) = f :: r ∧ First isNode h p f ∧ DagL isNode h r)

noncomputable def PLC (isNode : Elem → Prop) (T : Elem → Prop) (LP LQ : Elem → List ℤ) (h : Heap Elem) (p : ℤ) : ℤ :=
  if isNode (h.at' p) then
    match h.kl (h.at' p) with
    | [] => 0
    | f :: r => (if isNode (h.at' f) then SumL isNode T h (h.kl (h.at' f)) else one T (h.at' f)) + SumL isNode T h r + SumLL isNode T LP LQ h (h.lay (h.at' p))
  else one T (h.at' p)

theorem prog_ready {h : Heap Elem} {p : ℤ} (x : Prog isNode LP LQ h p) : Ready isNode h p := by
  obtain ⟨a, b, _, _, i, n⟩ := x
  refine ready_of ⟨a, b, i⟩ (fun c y hy => ?_)
  obtain ⟨_, _, _, f, r, e, g, d⟩ := n c
  rw [e] at hy
  rcases List.mem_cons.1 hy with rfl | hy
  · exact ready_of ⟨g.1, g.2.1, g.2.2.2.2.2.1⟩ (fun m z hz => dag_ready ((g.2.2.2.2.2.2 m).2.2 z hz))
  · exact dag_ready (d y hy)

/-- alpha.write, alpha.Creates.make: something under the id k, or of the element with this id, is changed; k is in progress, or new;
the elements in Sh share their lists of children from now on. -/
structure Change (h h1 : Heap Elem) (k : ℤ) (Sh : Elem → Prop) : Prop where
  cur : h.cur ≤ h1.cur
  ok : h.own k ≠ -1 ∨ h.cur ≤ k
  tab : ∀ y, 0 ≤ y → y < h.cur → y ≠ k → h1.at' y = h.at' y ∧ h1.own y = h.own y ∧ h1.role y = h.role y
  elem : ∀ y, 0 ≤ y → y < h.cur → y ≠ k → h.idf (h.at' y) = y →
    h1.idf (h.at' y) = y ∧ h1.kl (h.at' y) = h.kl (h.at' y) ∧ h1.lay (h.at' y) = h.lay (h.at' y) ∧ h1.lid (h.at' y) = h.lid (h.at' y)
      ∧ (¬ Sh (h.at' y) → h.uns (h.at' y) → h1.uns (h.at' y))

/-- A write to the element e (alpha.frame) is such a change of its id. -/
theorem change_elem (h h1 : Heap Elem) (e : Elem) (Sh : Elem → Prop) (ok : h.own (h.idf e) ≠ -1 ∨ h.cur ≤ h.idf e) (c : h.cur ≤ h1.cur)
    (t : h1.at' = h.at' ∧ h1.own = h.own ∧ h1.role = h.role)
    (s : ∀ x, x ≠ e → h1.idf x = h.idf x ∧ h1.kl x = h.kl x ∧ h1.lay x = h.lay x ∧ h1.lid x = h.lid x ∧ (¬ Sh x → h.uns x → h1.uns x)) :
    Change h h1 (h.idf e) Sh := by
  refine ⟨c, ok, fun y _ _ _ => by simp [t], fun y _ _ n i => ?_⟩
  have ne : h.at' y ≠ e := fun x => n (by rw [← i, x])
  obtain ⟨a, b⟩ := s _ ne
  exact ⟨by rw [a, i], b⟩

/-- A new element N under the next id. -/
theorem change_new (h h1 : Heap Elem) (N : Elem) (Sh : Elem → Prop) (new : ∀ y, 0 ≤ y → y < h.cur → h.at' y ≠ N) (c : h1.cur = h.cur + 1)
    (t : ∀ y, y ≠ h.cur → h1.at' y = h.at' y ∧ h1.own y = h.own y ∧ h1.role y = h.role y)
    (s : ∀ x, x ≠ N → h1.idf x = h.idf x ∧ h1.kl x = h.kl x ∧ h1.lay x = h.lay x ∧ h1.lid x = h.lid x ∧ (¬ Sh x → h.uns x → h1.uns x)) :
    Change h h1 h.cur Sh := by
  refine ⟨by omega, Or.inr le_rfl, fun y _ _ n => t y n, fun y a b n i => ?_⟩
  obtain ⟨x, z⟩ := s _ (new y a b)
  exact ⟨by rw [x, i], z⟩

/-- Another element under the id k, or k belongs to something else. -/
theorem change_id (h h1 : Heap Elem) (k : ℤ) (ok : h.own k ≠ -1 ∨ h.cur ≤ k) (c : h.cur ≤ h1.cur)
    (t : ∀ y, y ≠ k → h1.at' y = h.at' y ∧ h1.own y = h.own y ∧ h1.role y = h.role y)
    (s : h1.idf = h.idf ∧ h1.kl = h.kl ∧ h1.lay = h.lay ∧ h1.lid = h.lid ∧ h1.uns = h.uns) : Change h h1 k (fun _ => False) :=
  ⟨c, ok, fun y _ _ n => t y n, fun y _ _ _ i => by simp [s, i]⟩

variable {h h1 : Heap Elem} {k : ℤ} {Sh : Elem → Prop}

theorem dag_keep (ch : Change h h1 k Sh) {j : ℤ} (d : Dag isNode h j) : Dag isNode h1 j ∧ LC isNode T h1 j = LC isNode T h j := by
  induction d with
  | mk j a b o i e f ih =>
    have ne : j ≠ k := by
      rintro rfl
      rcases ch.ok with x | x
      · exact x o
      · omega
    obtain ⟨t1, t2, _⟩ := ch.tab j a b ne
    obtain ⟨e1, e2, _⟩ := ch.elem j a b ne i
    have d0 : Dag isNode h j := Dag.mk j a b o i e f
    have d1 : Dag isNode h1 j := Dag.mk j a (lt_of_lt_of_le b ch.cur) (by rw [t2, o]) (by rw [t1, e1])
      (by rw [t1, e2]; exact e) (by rw [t1, e2]; exact fun n c m => (ih n c m).1)
    refine ⟨d1, ?_⟩
    rw [dag_lc T d1, dag_lc T d0, t1, e2]
    by_cases n : isNode (h.at' j)
    · simp only [if_pos n, SumL]
      congr 1
      exact List.map_congr_left (fun c m => (ih n c m).2)
    · simp [n]

theorem list_keep (ch : Change h h1 k Sh) {l : List ℤ} (d : DagL isNode h l) : DagL isNode h1 l ∧ SumL isNode T h1 l = SumL isNode T h l := by
  refine ⟨fun c m => (dag_keep T ch (d c m)).1, ?_⟩
  unfold SumL
  congr 1
  exact List.map_congr_left (fun c m => (dag_keep T ch (d c m)).2)

/-- a layer with another id, which does not share its children from now on -/
theorem layer_keep (ch : Change h h1 k Sh) {o j : ℤ} (x : Layer isNode LP LQ h o j) (n : j ≠ k) (s : ¬ Sh (h.at' j)) :
    Layer isNode LP LQ h1 o j ∧ LLC isNode T LP LQ h1 j = LLC isNode T LP LQ h j := by
  obtain ⟨a, b, c, d, e, f, g, i, u, l, p, q, r⟩ := x
  obtain ⟨t1, t2, t3⟩ := ch.tab j a b n
  obtain ⟨e1, e2, _, _, e5⟩ := ch.elem j a b n g
  refine ⟨⟨a, lt_of_lt_of_le b ch.cur, c, d, by rw [t2, e], by rw [t3, f], by rw [t1, e1], by rw [t1]; exact i, by rw [t1]; exact e5 s u,
    by rw [t1, e2]; exact l, by rw [t1]; exact (list_keep T ch p).1, by rw [t1]; exact (list_keep T ch q).1, by rw [t1]; exact r⟩, ?_⟩
  unfold LLC
  rw [t1, (list_keep T ch p).2, (list_keep T ch q).2]

theorem layers_keep (ch : Change h h1 k Sh) {o : ℤ} {l : List ℤ} (x : LayL isNode LP LQ h o l) (n : ∀ j ∈ l, j ≠ k ∧ ¬ Sh (h.at' j)) :
    LayL isNode LP LQ h1 o l ∧ SumLL isNode T LP LQ h1 l = SumLL isNode T LP LQ h l := by
  refine ⟨⟨fun c m => (layer_keep T LP LQ ch (x.1 c m) (n c m).1 (n c m).2).1, x.2⟩, ?_⟩
  unfold SumLL
  congr 1
  exact List.map_congr_left (fun c m => (layer_keep T LP LQ ch (x.1 c m) (n c m).1 (n c m).2).2)

/-- alpha.same for lists of layers: k is new, or no layer -/
theorem layl_keep (ch : Change h h1 k (fun _ => False)) {o : ℤ} {l : List ℤ} (x : LayL isNode LP LQ h o l) (n : h.cur ≤ k ∨ h.role k ≠ 2) :
    LayL isNode LP LQ h1 o l ∧ SumLL isNode T LP LQ h1 l = SumLL isNode T LP LQ h l := by
  refine layers_keep T LP LQ ch x (fun j m => ⟨?_, id⟩)
  rintro rfl
  have y := x.1 j m
  rcases n with n | n
  · have := y.2.1; omega
  · exact n y.2.2.2.2.2.1

/-- alpha.same for what is in progress: k is new, or belongs to something else, and so do the elements that share from now on -/
theorem prog_keep (ch : Change h h1 k Sh) {p : ℤ} (x : Prog isNode LP LQ h p) (n : h.cur ≤ k ∨ p ≠ h.own k) (s : ∀ x, Sh x → p ≠ h.own (h.idf x)) :
    Prog isNode LP LQ h1 p ∧ PLC isNode T LP LQ h1 p = PLC isNode T LP LQ h p := by
  have part : ∀ y, 0 ≤ y → y < h.cur → h.own y = p → h.idf (h.at' y) = y → y ≠ k ∧ ¬ Sh (h.at' y) := by
    intro y _ b o i
    refine ⟨?_, fun c => s _ c (by rw [i, o])⟩
    rintro rfl
    rcases n with n | n
    · omega
    · exact n o.symm
  obtain ⟨a, b, o, ro, i, nd⟩ := x
  obtain ⟨ne, ns⟩ := part p a b o i
  obtain ⟨t1, t2, t3⟩ := ch.tab p a b ne
  obtain ⟨e1, e2, e3, e4, e5⟩ := ch.elem p a b ne i
  by_cases c : isNode (h.at' p)
  · obtain ⟨u, ld, la, f, r, kl, fi, dr⟩ := nd c
    obtain ⟨fa, fb, fp, fo, fr, fid, fn⟩ := fi
    obtain ⟨fne, fns⟩ := part f fa fb fo fid
    obtain ⟨g1, g2, g3⟩ := ch.tab f fa fb fne
    obtain ⟨m1, m2, _, _, m5⟩ := ch.elem f fa fb fne fid
    have lk := layers_keep T LP LQ ch la (fun j m => by
      obtain ⟨ja, jb, _, _, jo, _, ji, _⟩ := la.1 j m
      exact part j ja jb jo ji)
    have dk := list_keep T ch dr
    refine ⟨⟨a, lt_of_lt_of_le b ch.cur, by rw [t2, o], by rw [t3, ro], by rw [t1, e1], fun _ => ?_⟩, ?_⟩
    · rw [t1]
      refine ⟨e5 ns u, by rw [e4, ld], by rw [e3]; exact lk.1, f, r, by rw [e2, kl], ?_, dk.1⟩
      refine ⟨fa, lt_of_lt_of_le fb ch.cur, fp, by rw [g2, fo], by rw [g3, fr], by rw [g1, m1], ?_⟩
      rw [g1, m2]
      exact fun z => ⟨m5 fns (fn z).1, (fn z).2.1, (list_keep T ch (fn z).2.2).1⟩
    · unfold PLC
      rw [t1, e2, e3, kl]
      simp only [if_pos c, g1, m2, dk.2, lk.2]
      by_cases z : isNode (h.at' f)
      · simp only [if_pos z, (list_keep T ch (fn z).2.2).2]
      · simp [z]
  · refine ⟨⟨a, lt_of_lt_of_le b ch.cur, by rw [t2, o], by rw [t3, ro], by rw [t1, e1], fun y => absurd (t1 ▸ y) c⟩, ?_⟩
    unfold PLC
    rw [t1]
    simp [c]

/- redundant nodes -/

/-- ELE -/
def Ele (isNode : Elem → Prop) (h : Heap Elem) (x : Elem) : Prop := ∃ k, Dag isNode h k ∧ h.at' k = x

/-- alpha.ranks -/
theorem ele_id {x : Elem} (e : Ele isNode h x) : Dag isNode h (h.idf x) ∧ h.at' (h.idf x) = x := by
  obtain ⟨k, d, rfl⟩ := e
  have := ((dag_iff h k).1 d).2.2.2.1
  rw [this]
  exact ⟨d, rfl⟩

theorem ele_child {x : Elem} (e : Ele isNode h x) (n : isNode x) {c : ℤ} (m : c ∈ h.kl x) :
    Dag isNode h c ∧ rk isNode h c < rk isNode h (h.idf x) := by
  obtain ⟨d, a⟩ := ele_id e
  have n' : isNode (h.at' (h.idf x)) := by rw [a]; exact n
  have m' : c ∈ h.kl (h.at' (h.idf x)) := by rw [a]; exact m
  exact ⟨(((dag_iff h _).1 d).2.2.2.2 n').2 c m', (fin_child (dag_fin d) n' m').2⟩

/-- alpha.same_leaves: if each id has an element with as many leaves and no higher rank, every id has as many leaves as before. -/
theorem same_leaves {s h : Heap Elem} (ids : ∀ k, Dag isNode s k → Ele isNode s (h.at' k) ∧ LC isNode T s (s.idf (h.at' k)) = LC isNode T s k
      ∧ rk isNode s (s.idf (h.at' k)) ≤ rk isNode s k)
    (kids : ∀ x, Ele isNode s x → h.kl x = s.kl x) (cur : h.cur = s.cur) :
    ∀ k, Dag isNode s k → Fin' isNode h k ∧ LC isNode T h k = LC isNode T s k := by
  suffices H : ∀ n k, rk isNode s k ≤ n → Dag isNode s k → Fin' isNode h k ∧ LC isNode T h k = LC isNode T s k from fun k => H _ k le_rfl
  intro n
  induction n using Nat.strong_induction_on with
  | _ n ih =>
    intro k le d
    obtain ⟨e, lc, rl⟩ := ids k d
    obtain ⟨d', a'⟩ := ele_id e
    have r := (dag_iff s k).1 d
    have sub : isNode (h.at' k) → ∀ c ∈ h.kl (h.at' k), Fin' isNode h c ∧ LC isNode T h c = LC isNode T s c := by
      intro nd c m
      rw [kids _ e] at m
      obtain ⟨dc, lt⟩ := ele_child e nd m
      exact ih (rk isNode s c) (by omega) c le_rfl dc
    have f : Fin' isNode h k := fin_of r.1 (by rw [cur]; exact r.2.1) (fun nd c m => (sub nd c m).1)
    refine ⟨f, ?_⟩
    rw [lc_def T f, ← lc, dag_lc T d', a']
    by_cases nd : isNode (h.at' k)
    · simp only [if_pos nd]
      rw [← kids _ e]
      unfold SumL
      congr 1
      exact List.map_congr_left (fun c m => (sub nd c m).2)
    · simp [nd]

end Alpha

#print axioms Alpha.prog_keep
#print axioms Alpha.layl_keep
#print axioms Alpha.same_leaves
#print axioms Alpha.dag_ready
#print axioms Alpha.prog_ready
