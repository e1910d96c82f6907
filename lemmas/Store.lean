/-
The states of a hypergraph, as pyvc/store.py (state_axioms) describes them: a model of the
definitions (EX, KN, CNT, TSF of EMPTY, ADD, REM) in which the five facts that are called lemmas there hold.
Nothing is assumed of entities but what theory.py (wf_axioms) says: the elements of a
well-formed edge are well-formed, and no entity is an element of itself.
-/
import Mathlib.Tactic

open Classical

namespace Store

structure Ents where
  Ent : Type
  Txt : Type
  wf : Ent → Prop
  isEdge : Ent → Prop                 -- KIND(e) == 0
  els : Ent → List Ent                -- EL(e, 0), ..., EL(e, ELEN(e) - 1)
  txt : Ent → Txt                     -- E2S
  txt_inj : ∀ a b, wf a → wf b → txt a = txt b → a = b
  wf_els : ∀ e, wf e → isEdge e → ∀ v ∈ els e, wf v
  not_in : ∀ e, wf e → isEdge e → e ∉ els e

variable (E : Ents)

/-- OCC(e, ELEN(e), E2S(v)) -/
noncomputable def occ (e v : E.Ent) : ℤ := ((E.els e).countP (fun x => decide (E.txt x = E.txt v)) : ℕ)

def edge (e : E.Ent) : Prop := E.wf e ∧ E.isEdge e

structure Raw where
  ex : Finset E.Ent
  kn : E.Ent → Prop
  cnt : E.Ent → ℤ
  tsf : E.Ent → ℤ

noncomputable def empty : Raw E := ⟨∅, fun _ => False, fun _ => 0, fun _ => -1⟩

noncomputable def addNew (h : Raw E) (e : E.Ent) (t : ℤ) : Raw E :=
  let kn := fun v => h.kn v ∨ v = e ∨ (E.wf v ∧ 0 < occ E e v)
  { ex := insert e h.ex
    kn := kn
    cnt := fun v => if E.wf v then h.cnt v + occ E e v else 0
    tsf := fun v => if h.kn v then h.tsf v else if kn v then t else -1 }

noncomputable def add (h : Raw E) (e : E.Ent) (t : ℤ) : Raw E :=
  if edge E e ∧ e ∉ h.ex then addNew E h e t else h

noncomputable def remOld (h : Raw E) (e : E.Ent) : Raw E :=
  let cnt := fun v => if E.wf v then h.cnt v - occ E e v else 0
  let kn := fun v => h.kn v ∧ ¬ (v = e ∧ cnt v = 0)
  { ex := h.ex.erase e
    kn := kn
    cnt := cnt
    tsf := fun v => if kn v then h.tsf v else -1 }

noncomputable def rem (h : Raw E) (e : E.Ent) : Raw E := if e ∈ h.ex then remOld E h e else h

/-- The states that operations lead to. -/
inductive Reached : Raw E → Prop
  | empty : Reached (empty E)
  | add {h} (e t) : Reached h → Reached (add E h e t)
  | rem {h} (e) : Reached h → Reached (rem E h e)

/-- The type State of store.py. -/
def State := {h : Raw E // Reached E h}

variable {E}
def EX (h : State E) (e : E.Ent) : Prop := e ∈ h.1.ex
def KN (h : State E) (e : E.Ent) : Prop := h.1.kn e
def CNT (h : State E) (e : E.Ent) : ℤ := h.1.cnt e
def TSF (h : State E) (e : E.Ent) : ℤ := h.1.tsf e
noncomputable def ADD (h : State E) (e : E.Ent) (t : ℤ) : State E := ⟨add E h.1 e t, Reached.add e t h.2⟩
noncomputable def REM (h : State E) (e : E.Ent) : State E := ⟨rem E h.1 e, Reached.rem e h.2⟩
noncomputable def EMPTY : State E := ⟨empty E, Reached.empty⟩

/-- What holds in every state: the count of an entity is the sum of its occurrences in the stored edges. -/
structure Inv (h : Raw E) : Prop where
  cnt_sum : ∀ v, E.wf v → h.cnt v = ∑ e ∈ h.ex, occ E e v
  cnt_ill : ∀ v, ¬ E.wf v → h.cnt v = 0
  kn_wf : ∀ v, h.kn v → E.wf v
  ex_kn : ∀ e ∈ h.ex, edge E e ∧ h.kn e
  el_kn : ∀ e ∈ h.ex, ∀ v ∈ E.els e, h.kn v
  tsf_un : ∀ v, ¬ h.kn v → h.tsf v = -1

theorem occ_nonneg (e v : E.Ent) : 0 ≤ occ E e v := by simp [occ]

theorem occ_pos {e v : E.Ent} (h : v ∈ E.els e) : 0 < occ E e v := by
  have : 0 < (E.els e).countP (fun x => decide (E.txt x = E.txt v)) :=
    List.countP_pos_iff.2 ⟨v, h, by simp⟩
  simpa [occ] using this

theorem occ_mem {e v : E.Ent} (he : edge E e) (hv : E.wf v) (h : 0 < occ E e v) : v ∈ E.els e := by
  have : 0 < (E.els e).countP (fun x => decide (E.txt x = E.txt v)) := by simpa [occ] using h
  obtain ⟨x, hx, hxv⟩ := List.countP_pos_iff.1 this
  have := E.txt_inj x v (E.wf_els e he.1 he.2 x hx) hv (by simpa using hxv)
  exact this ▸ hx

theorem inv_empty : Inv (empty E) :=
  ⟨fun _ _ => by simp [empty], fun _ _ => rfl, fun _ h => h.elim, fun _ h => by simp [empty] at h, fun _ h => by simp [empty] at h, fun _ _ => rfl⟩

theorem inv_add {h : Raw E} (i : Inv h) (e : E.Ent) (t : ℤ) : Inv (add E h e t) := by
  unfold add
  split
  · rename_i c
    obtain ⟨he, hn⟩ := c
    refine ⟨?_, ?_, ?_, ?_, ?_, ?_⟩
    · intro v hv
      simp [addNew, hv, Finset.sum_insert hn, i.cnt_sum v hv]; ring
    · intro v hv; simp [addNew, hv]
    · rintro v (hv | rfl | hv)
      · exact i.kn_wf v hv
      · exact he.1
      · exact hv.1
    · intro e' h'
      rcases Finset.mem_insert.1 h' with rfl | h'
      · exact ⟨he, Or.inr (Or.inl rfl)⟩
      · exact ⟨(i.ex_kn e' h').1, Or.inl (i.ex_kn e' h').2⟩
    · intro e' h' v hv
      rcases Finset.mem_insert.1 h' with rfl | h'
      · exact Or.inr (Or.inr ⟨E.wf_els _ he.1 he.2 v hv, occ_pos hv⟩)
      · exact Or.inl (i.el_kn e' h' v hv)
    · intro v hv
      have h1 : ¬ h.kn v := fun x => hv (Or.inl x)
      simp only [addNew] at hv ⊢
      rw [if_neg h1, if_neg hv]
  · exact i

theorem inv_rem {h : Raw E} (i : Inv h) (e : E.Ent) : Inv (rem E h e) := by
  unfold rem
  split
  · rename_i he
    have cs : ∀ v, E.wf v → h.cnt v - occ E e v = ∑ x ∈ h.ex.erase e, occ E x v := by
      intro v hv
      rw [i.cnt_sum v hv, ← Finset.add_sum_erase _ _ he]; ring
    refine ⟨?_, ?_, ?_, ?_, ?_, ?_⟩
    · intro v hv; simp only [remOld, if_pos hv]; exact cs v hv
    · intro v hv; simp [remOld, hv]
    · rintro v ⟨hv, _⟩; exact i.kn_wf v hv
    · intro e' h'
      have h2 := Finset.mem_erase.1 h'
      exact ⟨(i.ex_kn e' h2.2).1, (i.ex_kn e' h2.2).2, fun x => h2.1 x.1⟩
    · intro e' h' v hv
      have h2 := Finset.mem_erase.1 h'
      have ed := (i.ex_kn e' h2.2).1
      have wv := E.wf_els _ ed.1 ed.2 v hv
      refine ⟨i.el_kn e' h2.2 v hv, fun x => ?_⟩
      obtain ⟨rfl, hc⟩ := x
      simp only [if_pos wv] at hc
      rw [cs v wv] at hc
      have h0 := (Finset.sum_eq_zero_iff_of_nonneg (fun x _ => occ_nonneg x v)).1 hc e' h'
      have := occ_pos hv
      omega
    · intro v hv
      simp only [remOld] at hv ⊢
      rw [if_neg hv]
  · exact i

theorem inv (h : State E) : Inv h.1 := by
  obtain ⟨h, r⟩ := h
  induction r with
  | empty => exact inv_empty
  | add e t _ ih => exact inv_add ih e t
  | rem e _ ih => exact inv_rem ih e

/- The definitions, as state_axioms gives them. -/

theorem add_old (h : State E) (e t) (x : EX h e) : ADD h e t = h := by
  apply Subtype.ext; simp only [ADD, add]; rw [if_neg]; exact fun c => c.2 x

theorem ex_add (h : State E) (e t v) (x : edge E e) : EX (ADD h e t) v ↔ EX h v ∨ v = e := by
  by_cases y : e ∈ h.1.ex
  · rw [add_old h e t y]
    exact ⟨Or.inl, fun c => c.elim id (fun c => c ▸ y)⟩
  · simp only [EX, ADD, add, if_pos (And.intro x y), addNew, Finset.mem_insert]; tauto

theorem kn_add (h : State E) (e t v) (x : edge E e) (y : ¬ EX h e) :
    KN (ADD h e t) v ↔ KN h v ∨ v = e ∨ (E.wf v ∧ occ E e v > 0) := by
  have y : e ∉ h.1.ex := y
  simp only [KN, ADD, add, if_pos (And.intro x y), addNew]

theorem cnt_add (h : State E) (e t v) (x : edge E e) (y : ¬ EX h e) (w : E.wf v) : CNT (ADD h e t) v = CNT h v + occ E e v := by
  have y : e ∉ h.1.ex := y
  simp [CNT, ADD, add, if_pos (And.intro x y), addNew, w]

theorem tsf_add (h : State E) (e t v) (x : edge E e) (y : ¬ EX h e) :
    TSF (ADD h e t) v = if KN h v then TSF h v else if KN (ADD h e t) v then t else -1 := by
  have y : e ∉ h.1.ex := y
  simp only [TSF, KN, ADD, add, if_pos (And.intro x y), addNew]

theorem rem_new (h : State E) (e) (x : ¬ EX h e) : REM h e = h := by
  apply Subtype.ext; simp only [REM, rem]; rw [if_neg]; exact x

theorem ex_rem (h : State E) (e v) : EX (REM h e) v ↔ EX h v ∧ v ≠ e := by
  by_cases y : e ∈ h.1.ex
  · simp only [EX, REM, rem, if_pos y, remOld, Finset.mem_erase]; tauto
  · rw [rem_new h e y]
    exact ⟨fun c => ⟨c, fun d => y (d ▸ c)⟩, And.left⟩

theorem cnt_rem (h : State E) (e v) (y : EX h e) (w : E.wf v) : CNT (REM h e) v = CNT h v - occ E e v := by
  have y : e ∈ h.1.ex := y
  simp [CNT, REM, rem, if_pos y, remOld, w]

theorem kn_rem (h : State E) (e v) (y : EX h e) : KN (REM h e) v ↔ KN h v ∧ ¬ (v = e ∧ CNT (REM h e) v = 0) := by
  have y : e ∈ h.1.ex := y
  simp only [KN, CNT, REM, rem, if_pos y, remOld]

theorem tsf_rem (h : State E) (e v) (y : EX h e) : TSF (REM h e) v = if KN (REM h e) v then TSF h v else -1 := by
  have y : e ∈ h.1.ex := y
  simp only [TSF, KN, REM, rem, if_pos y, remOld]

theorem empty_state (v : E.Ent) : ¬ EX EMPTY v ∧ ¬ KN EMPTY v ∧ CNT (EMPTY : State E) v = 0 ∧ TSF (EMPTY : State E) v = -1 := by
  refine ⟨?_, ?_, rfl, rfl⟩
  · simp [EX, EMPTY, empty]
  · exact fun c => c

/- The lemmas. -/

theorem lemma1 (h : State E) (v : E.Ent) : 0 ≤ CNT h v ∧ (¬ KN h v → CNT h v = 0) := by
  have i := inv h
  by_cases w : E.wf v
  · refine ⟨?_, fun x => ?_⟩
    · show 0 ≤ h.1.cnt v
      rw [i.cnt_sum v w]; exact Finset.sum_nonneg (fun e _ => occ_nonneg e v)
    · show h.1.cnt v = 0
      rw [i.cnt_sum v w]
      refine Finset.sum_eq_zero (fun e he => ?_)
      by_contra c
      have : 0 < occ E e v := lt_of_le_of_ne (occ_nonneg e v) (Ne.symm c)
      exact x (i.el_kn e he v (occ_mem (i.ex_kn e he).1 w this))
  · have : CNT h v = 0 := i.cnt_ill v w
    exact ⟨by omega, fun _ => this⟩

theorem lemma2 (h : State E) (v : E.Ent) : KN h v → E.wf v := (inv h).kn_wf v
theorem lemma3 (h : State E) (v : E.Ent) : ¬ KN h v → TSF h v = -1 := (inv h).tsf_un v
theorem lemma4 (h : State E) (e : E.Ent) : EX h e → edge E e ∧ KN h e := (inv h).ex_kn e
theorem lemma5 (h : State E) (e : E.Ent) (j : Fin (E.els e).length) : EX h e → KN h ((E.els e).get j) :=
  fun x => (inv h).el_kn e x _ (List.get_mem _ _)

end Store
#print axioms Store.lemma1
#print axioms Store.lemma5
