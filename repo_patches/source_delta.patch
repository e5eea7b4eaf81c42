From d71a8405d0bdc2df36bc076485d359a59b64b8b6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:46 +0000
Subject: [PATCH 01/39] fix: Hadamard gate is the Fourier matrix in every
 dimension

The matrix was a circulant of the roots of unity in the order np.roots
returns them, which is not unitary for dims >= 4.
---
 src/qudiet/circuit_library/standard_gates/h.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/qudiet/circuit_library/standard_gates/h.py b/src/qudiet/circuit_library/standard_gates/h.py
index 7ebe9b7..1150a47 100644
--- a/src/qudiet/circuit_library/standard_gates/h.py
+++ b/src/qudiet/circuit_library/standard_gates/h.py
@@ -28,7 +28,6 @@ from abc import ABC
 from typing import Union
 
 import numpy as np
-from scipy.linalg import circulant
 from scipy.sparse import csr_matrix
 
 from qudiet.circuit_library.standard_gates.quantum_gate import QuantumGate
@@ -69,16 +68,12 @@ class HGate(QuantumGate, ABC):
         This is the gate unitary which shall be used to do any calculation
         :return: The gate unitary
         """
-        _roots_of_unity_build_list = np.zeros(self.dims + 1)
-        _roots_of_unity_build_list[0] = 1
-        _roots_of_unity_build_list[self.dims] = -1
-        _roots_of_unity = np.roots(_roots_of_unity_build_list)
-        _usable_roots_of_unity = np.delete(_roots_of_unity, len(_roots_of_unity) - 1)
-        _unitary_builder = circulant(_usable_roots_of_unity)
-        _unitary_builder_first_row = np.ones(len(_usable_roots_of_unity))
-        _unitary_first = np.vstack([_unitary_builder_first_row, _unitary_builder])
-        _unitary_first_column = np.ones(len(_usable_roots_of_unity) + 1)
-        _unitary_unnormalized = np.c_[_unitary_first_column, _unitary_first]
+        # Entry (j, k) is w^(j * k), where w is the first dims-th root of unity
+        _levels = np.arange(self.dims)
+        _exponents = np.outer(_levels, _levels) % self.dims
+        _unitary_unnormalized = np.exp(2j * np.pi * _exponents / self.dims)
+        if self.dims == 2:
+            _unitary_unnormalized = _unitary_unnormalized.real
         _unitary = 1 / (math.sqrt(self.dims)) * _unitary_unnormalized
 
         return self.backend.matrix(_unitary)
-- 
2.43.0


From c520334ab2ba08d61720f414b22fe03d5d28a9c9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:46 +0000
Subject: [PATCH 02/39] fix: Z gate phases follow the level of the qudit

The diagonal held the roots of unity in the order np.roots returns them,
which is not the generalised Pauli-Z for dims >= 4 (and is off by a phase
for dims 2 and 3).
---
 src/qudiet/circuit_library/standard_gates/z.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/qudiet/circuit_library/standard_gates/z.py b/src/qudiet/circuit_library/standard_gates/z.py
index c1ea11a..82a5f99 100644
--- a/src/qudiet/circuit_library/standard_gates/z.py
+++ b/src/qudiet/circuit_library/standard_gates/z.py
@@ -67,12 +67,11 @@ class ZGate(QuantumGate, ABC):
         This is the gate unitary which shall be used to do any calculation
         :return: The gate unitary
         """
-        _roots_of_unity_build_list = np.zeros(self.dims + 1)
-        _roots_of_unity_build_list[0] = 1
-        _roots_of_unity_build_list[self.dims] = -1
-        _roots_of_unity = np.roots(_roots_of_unity_build_list)
-        _roots_of_unity = np.flipud(_roots_of_unity)
-        _unitary = np.diag(np.flipud(_roots_of_unity))
+        # Level k picks up the phase w^k, where w is the first dims-th root of unity
+        _roots_of_unity = np.exp(2j * np.pi * np.arange(self.dims) / self.dims)
+        if self.dims == 2:
+            _roots_of_unity = _roots_of_unity.real
+        _unitary = np.diag(_roots_of_unity)
 
         return self.backend.matrix(_unitary)
 
-- 
2.43.0


From 554c214568c35c2e3a518663d2621b89280c71ee Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 03/39] fix: probability of a complex amplitude is its squared
 modulus

d**2 is a complex number when d is.
---
 src/qudiet/core/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/output.py b/src/qudiet/core/output.py
index abe83d0..d59ace4 100644
--- a/src/qudiet/core/output.py
+++ b/src/qudiet/core/output.py
@@ -70,7 +70,7 @@ class Output:
                         f"|{''.join([str(s) for s in state])}>"
                         if self.output_type == OutputType.print
                         else tuple(state)
-                    ): (d**2 if self.output_method == OutputMethod.probability else d)
+                    ): (abs(d)**2 if self.output_method == OutputMethod.probability else d)
                 }
             ]
         return qoutput
-- 
2.43.0


From d90369c32a2193c4e566ecf207eb2c8fffb64a30 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 04/39] fix: circuits defined by a (length, dimension) tuple

The tuple itself was used as the list of dimensions by the output, the
Toffoli gate, the drawings and the circuit summaries.
---
 src/qudiet/core/quantum_circuit.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index e7d06ac..eb9680a 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -87,15 +87,19 @@ class QuantumCircuit:
         self.backend = DefaultBackend if backend is None else backend
         self.debug_backend = self.backend
 
+        if not isinstance(qregs, (tuple, list)):
+            raise ValueError(
+                "The registers must be defined as a tuple of two integers or a list of integers"
+            )
+        if type(qregs) == tuple:
+            # (length, dimension)
+            qregs = qregs[0] * [qregs[1]]
+
         if output is None:
             output = Output(qregs, OutputType.print, OutputMethod.amplitude)
 
         self.output_processor = output
 
-        if not isinstance(qregs, (tuple, list)):
-            raise ValueError(
-                "The registers must be defined as a tuple of two integers or a list of integers"
-            )
         self.qregs = qregs
         self.cregs = cregs or 0
         self.name = name or ""
-- 
2.43.0


From f6e36687af79b164ce28c7b01a4b0271f03903ef Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 05/39] fix: a circuit keeps its own copy of the lists it is
 built from

The caller's init_states list was extended in place, and later changes to
its qregs list changed the circuit.
---
 src/qudiet/core/quantum_circuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index eb9680a..0dfa7e4 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -94,6 +94,8 @@ class QuantumCircuit:
         if type(qregs) == tuple:
             # (length, dimension)
             qregs = qregs[0] * [qregs[1]]
+        else:
+            qregs = list(qregs)
 
         if output is None:
             output = Output(qregs, OutputType.print, OutputMethod.amplitude)
@@ -103,7 +105,7 @@ class QuantumCircuit:
         self.qregs = qregs
         self.cregs = cregs or 0
         self.name = name or ""
-        self.init_states = init_states or []
+        self.init_states = list(init_states or [])
         self.circuit_output = None
 
         self.op_flow = OperatorFlow()
-- 
2.43.0


From 535dc42dabd49fd12f0f756572117c1f48a16bd7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 06/39] fix: reject negative registers and CX gates with
 control == target

x/h/z/gate on a negative register silently added no gate, and a CX gate
with control == target a matrix that is not unitary.
---
 src/qudiet/core/quantum_circuit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 0dfa7e4..a25483e 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -158,7 +158,7 @@ class QuantumCircuit:
         if type(qreg) is list:
             return [self.__validate_gate_inputs(qreg_i, dims) for qreg_i in qreg]
 
-        if qreg > self._reg_length - 1:
+        if qreg < 0 or qreg > self._reg_length - 1:
             raise ValueError(
                 "Illegal placement of gate. Register specified is out of circuit bounds."
             )
@@ -301,6 +301,10 @@ class QuantumCircuit:
         :return: True if everything goes well, else False
         """
 
+        self.__validate_gate_inputs(list(acting_on), dims)
+        if acting_on[0] == acting_on[1]:
+            raise ValueError("Control and target must be different registers.")
+
         # active_qregs = [
         #     self._reg_dims[qreg] for qreg in [range(acting_on[0], acting_on[1] + 1) if acting_on[0] < acting_on[1] else range(acting_on[1], acting_on[0] + 1)]
         # ]
-- 
2.43.0


From 14307b3d9f8b13059b507c4b4f6412611080ac50 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 07/39] fix: accept custom and Toffoli gates that span two
 registers

The shape, a tuple, was compared with the list of the two dimensions.
---
 src/qudiet/circuit_library/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/circuit_library/__init__.py b/src/qudiet/circuit_library/__init__.py
index fa7d082..8f37072 100644
--- a/src/qudiet/circuit_library/__init__.py
+++ b/src/qudiet/circuit_library/__init__.py
@@ -82,7 +82,8 @@ class ArbitaryGate(QuantumGate, ABC):
             if len(self.dims) == 1:
                 assert self._unitary.shape == (self.dims[0], self.dims[0])
             if len(self.dims) == 2:
-                assert self._unitary.shape == self.dims
+                size = self.dims[0] * self.dims[1]
+                assert self._unitary.shape == (size, size)
             if len(self.dims) > 2:
                 # raise Exception(f'The defined gate can have `at most` connected 2 registers. One target and One for Control.')
                 # warnings.warn(f'The defined gate can have `at most` connected 2 registers. One target and One for Control.')
-- 
2.43.0


From 2d2ba0c8ec8a66398328295df8be9fdce63d9e04 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 08/39] fix: reject initial states outside 0 .. dim - 1

A negative state was taken from the end, state == dim was an IndexError.
---
 src/qudiet/core/init_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/init_states.py b/src/qudiet/core/init_states.py
index 655466c..8c851ba 100644
--- a/src/qudiet/core/init_states.py
+++ b/src/qudiet/core/init_states.py
@@ -40,7 +40,7 @@ class InitState:
         :param state: Represents the state in which it is to be initialized.
         :param qreg:   Represents the position of the init state in the circuit.
         """
-        if dim < state or dim < 2:
+        if state < 0 or dim <= state or dim < 2:
             raise ValueError("Please check values of dim and state")
         else:
             self.dim = dim
-- 
2.43.0


From bd89d2590499cdd8bfa236780786c64645294088 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 09/39] fix: toffoli() reports whether the gate was added

It returned True on a measured circuit, where the gate is refused.
---
 src/qudiet/core/quantum_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index a25483e..d66d34a 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -288,7 +288,7 @@ class QuantumCircuit:
 
         _result = self.__add_moment_to_opflow(_toffoligate._acting_on, _toffoligate)
 
-        return True
+        return _result
 
     def cx(
         self, acting_on: "tuple[int, int]", plus: int, dims: Optional[int] = None
-- 
2.43.0


From 6249fc59d34faca1b279b8886acac5d86114ed85 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 10/39] fix: populate_opflow() keeps every gate of every moment
 it is given

The moments after the first one merged into the last layer were dropped,
and so were the other gates of a merged moment.
---
 src/qudiet/core/operator_flow.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qudiet/core/operator_flow.py b/src/qudiet/core/operator_flow.py
index 7d4473b..e09a92f 100644
--- a/src/qudiet/core/operator_flow.py
+++ b/src/qudiet/core/operator_flow.py
@@ -176,6 +176,9 @@ class OperatorFlow:
                     )
                 except StopIteration:
                     _qreg = None
+                # Only a moment with a single gate can be absorbed by another
+                if sum(not isinstance(_gate, IGate) for _gate in _curr_moment_list) > 1:
+                    _qreg = None
 
                 # Loops through the OperatorFlow list, checks if any of the earlier Moment(s) have an IGate.
                 # If yes, replaces it with HGate, XGate or ZGate of the current
@@ -203,11 +206,9 @@ class OperatorFlow:
                             _curr_earlier_moment.replace_igate(_curr_moment_list[_qreg])
                             # TODO : replace_igate replaces all the IGates. It needs to replace only the nth IGate (positional IGate)
                         )
-                    if _added_gate_to_earlier_moment:
-                        break
 
                 if _added_gate_to_earlier_moment:
-                    self._opflow_list[_index + 1] = _curr_earlier_moment
+                    self._opflow_list[_index] = _curr_earlier_moment
 
                 # Checks if the current Moment's HGate, XGate or ZGate has been added to any earlier Moment.
                 # If no, takes the last Moment in OperatorFlow list and points it to the current Moment, thereby
-- 
2.43.0


From 08ae78946ca423b20930e4c3ac543dc247fc3185 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 11/39] fix: X gate increments wrap around like those of CX and
 Toffoli

An increment >= dims was an IndexError when the circuit ran.
---
 src/qudiet/circuit_library/standard_gates/x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/circuit_library/standard_gates/x.py b/src/qudiet/circuit_library/standard_gates/x.py
index 722085c..f5633fc 100644
--- a/src/qudiet/circuit_library/standard_gates/x.py
+++ b/src/qudiet/circuit_library/standard_gates/x.py
@@ -69,7 +69,7 @@ class XGate(QuantumGate, ABC):
         :return: The gate unitary
         """
         _unitary_builder = np.zeros(shape=(self.dims, 1))
-        _unitary_builder[self.plus] = 1
+        _unitary_builder[self.plus % self.dims] = 1
         _unitary = self.backend.matrix(circulant(_unitary_builder))
 
         return _unitary
-- 
2.43.0


From 42d92c0efa58d7b11a00a2b6f58edf66e605d465 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 12/39] fix: RX 180 in qasm is an increment by one, not by 180

---
 src/qudiet/qasm/qasm_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 4b74fae..2e85000 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -87,7 +87,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
             re.search("^RX", _gate) and re.search("180$", _gate)
         ):
             plus = 1
-            if len(_gate.split()) == 3:
+            if len(_gate.split()) == 3 and not re.search("^RX", _gate):
                 plus = int(_gate.split()[2])
             _gate_qreg = int(re.findall("\d+", _gate.split()[1])[0])
             qc.x(qreg=_gate_qreg, plus=plus)
-- 
2.43.0


From 3bc1b1d994855dc8c471d28c2d96dc41ef93c532 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 13/39] fix: accept indented qasm, such as the example in the
 README

---
 src/qudiet/qasm/qasm_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 2e85000..6b727e2 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -39,6 +39,7 @@ def parse_qasm(filename: str, backend: Backend = None):
 
 
 def circuit_from_qasm(_data, backend: Backend = None):
+    _data = "\n".join(_line.strip() for _line in _data.split("\n"))
     _data = re.sub(r"\.qubit (\d+)", r".qudit \1", _data)
     _data = re.sub(r"\.qutrit (\d+)", r".qudit \1", _data)
     _data = re.split("\n\.(qudit\s\d+|begin|end)", _data)
-- 
2.43.0


From 9bfe111d430d41594b518048eec35de258dbd2b8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 14/39] fix: matplotlib drawing of gates that do not start at
 the first register

The dimensions kept by CX and Toffoli gates start at the first register
they span. A circuit without gates can be drawn as well.
---
 src/qudiet/utility/circuit_draw.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/qudiet/utility/circuit_draw.py b/src/qudiet/utility/circuit_draw.py
index e4a78f1..1d17590 100644
--- a/src/qudiet/utility/circuit_draw.py
+++ b/src/qudiet/utility/circuit_draw.py
@@ -173,15 +173,16 @@ def _draw_toffoli_gate(gate_,i,ax,dpi):
     crtl_,trgt=gate_.acting_on
     crtl=list(crtl_)
     plus=gate_._plus
-    dim=gate_.dims[trgt]
+    dim=gate_.dims[trgt-min(crtl+[trgt])]
     return _draw_cgate('X',crtl,trgt,plus,dim,i,ax,dpi)
 
 def _draw_cnot_gate(gate,i,ax,dpi):
     crtl,trgt=gate.acting_on
     crtl=[crtl]
     plus=gate._plus
-    dim=gate._qreg[trgt]
-    if gate._qreg[crtl[0]]==2 and gate._qreg[trgt]==2:
+    start=min(crtl[0],trgt)
+    dim=gate._qreg[trgt-start]
+    if gate._qreg[crtl[0]-start]==2 and dim==2:
         return _draw_qubit_cnot_gate(crtl[0],trgt,i,ax,dpi)
     return _draw_cgate('X',crtl,trgt,plus,dim,i,ax,dpi)
 def _draw_x_gate(gate_,i,ax,dpi):
@@ -233,8 +234,6 @@ def draw_circuit_mpl(cir,compress=1):
     bit=len(cir.qregs)
     
     moments=cir.op_flow.peek()
-    moment=moments[1]
-    gates=moment.peek_list()
     
     fig=1
     dpi=plt.rcParams['figure.dpi']
-- 
2.43.0


From 0ccf8db2ffc089ee0897e7a20c6b66292577a4da Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:44 +0000
Subject: [PATCH 15/39] fix: a comment after a qasm instruction is not part of
 it

"X x0 2 # twice" incremented by one, "Toffoli x0, x1, x2 # and" failed.
---
 src/qudiet/qasm/qasm_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 6b727e2..02385d5 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -39,7 +39,7 @@ def parse_qasm(filename: str, backend: Backend = None):
 
 
 def circuit_from_qasm(_data, backend: Backend = None):
-    _data = "\n".join(_line.strip() for _line in _data.split("\n"))
+    _data = "\n".join(_line.split("#")[0].strip() for _line in _data.split("\n"))
     _data = re.sub(r"\.qubit (\d+)", r".qudit \1", _data)
     _data = re.sub(r"\.qutrit (\d+)", r".qudit \1", _data)
     _data = re.split("\n\.(qudit\s\d+|begin|end)", _data)
-- 
2.43.0


From a952a36a331c59e28ebdaef90bc10f689c8f5321 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:44 +0000
Subject: [PATCH 16/39] fix: keep the sign of the increment of a qasm CX

---
 src/qudiet/qasm/qasm_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 02385d5..a1aa250 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -107,7 +107,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
                 int(re.findall("\d+", _gate.split()[2])[0]),
             )
             if len(_gate.split()) == 4:
-                _plus = int(re.findall("\d+", _gate.split()[3])[0])
+                _plus = int(re.findall(r"-?\d+", _gate.split()[3])[0])
             else:
                 _plus = 1
             qc.cx(acting_on=_gate_qreg, plus=_plus)
-- 
2.43.0


From ff15798fcd4f5a4df32858ed2f1b29685e4d399a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:44 +0000
Subject: [PATCH 17/39] fix: qasm instructions are executed or refused, never
 skipped

The lower case x of testbench/tof_large/grover_n2 and RX by an angle other
than 180 were silently left out of the circuit.
---
 src/qudiet/qasm/qasm_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index a1aa250..1b6b06c 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -84,7 +84,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
     qc = QuantumCircuit(qregs=_qregs, backend=backend)
 
     for _gate in _gates:
-        if re.search("^X", _gate) or (
+        if re.search("^[Xx]", _gate) or (
             re.search("^RX", _gate) and re.search("180$", _gate)
         ):
             plus = 1
@@ -119,6 +119,9 @@ def circuit_from_qasm(_data, backend: Backend = None):
             # qc.toffoli(_gate_qreg, _plus)
             qc.toffoli(_gate_qreg)
 
+        else:
+            raise ValueError(f"Unknown qasm instruction: {_gate}")
+
     qc.measure_all()
 
     return qc
-- 
2.43.0


From 78a06ed5000f9582157c3b1c7e71443901f80d1d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:44 +0000
Subject: [PATCH 18/39] fix: show custom gates in the text drawing

They were left blank; the matplotlib drawing shows them as G.
---
 src/qudiet/core/quantum_circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index d66d34a..9447097 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -496,6 +496,9 @@ class QuantumCircuit:
                             draw_matrix[dit][j] = f'X({op._plus})'
                         else:
                             draw_matrix[dit][j] = "|"
+                elif isinstance(op, ArbitaryGate):
+                    for dit in op.qreg if isiterable(op.qreg) else [op.qreg]:
+                        draw_matrix[dit][j] = 'G'
             
         for i in range(len(draw_matrix)):
             for j in range(len(draw_matrix[i])):
-- 
2.43.0


From 5e5d2205a1c9b1867ae18df55d8819196c1013b5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:16 +0000
Subject: [PATCH 19/39] fix: SparseBackend.eye(n, m) has n rows and m columns,
 as NumpyBackend.eye

---
 src/qudiet/core/backend/SparseBackend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/backend/SparseBackend.py b/src/qudiet/core/backend/SparseBackend.py
index 20452cd..70c4c55 100644
--- a/src/qudiet/core/backend/SparseBackend.py
+++ b/src/qudiet/core/backend/SparseBackend.py
@@ -39,7 +39,7 @@ class SparseBackend(Backend):
 
     @staticmethod
     def eye(n, m):
-        return sparse.eye(n=n, m=m)
+        return sparse.eye(m=n, n=m)
 
     @staticmethod
     def matrix(a):
-- 
2.43.0


From 10268b4fec7ad0a2473c0c33cba969cd49d223e0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:21 +0000
Subject: [PATCH 20/39] fix: check the size of custom gates on three or more
 registers

A matrix with orthonormal rows but too few of them passed the unitarity
check, and run() reported a state of the wrong size.
---
 src/qudiet/circuit_library/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/circuit_library/__init__.py b/src/qudiet/circuit_library/__init__.py
index 8f37072..e581390 100644
--- a/src/qudiet/circuit_library/__init__.py
+++ b/src/qudiet/circuit_library/__init__.py
@@ -87,7 +87,8 @@ class ArbitaryGate(QuantumGate, ABC):
             if len(self.dims) > 2:
                 # raise Exception(f'The defined gate can have `at most` connected 2 registers. One target and One for Control.')
                 # warnings.warn(f'The defined gate can have `at most` connected 2 registers. One target and One for Control.')
-                pass
+                size = np.prod(self.dims)
+                assert self._unitary.shape == (size, size)
 
 
         # Qudit Dimesnion, suppose 3, the check if the shape is 3 x 3
-- 
2.43.0


From 6a97baa88e403171189a8b9cf8cd32a03b95238d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:18 +0000
Subject: [PATCH 21/39] fix: gates keep their own copy of the registers they
 are given

A list passed to cx(), toffoli() or gate() and changed afterwards changed
the gate, as the matrix and the drawings are made later.
---
 src/qudiet/core/quantum_circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 9447097..e01049d 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -282,6 +282,7 @@ class QuantumCircuit:
         # # self.op_flow.populate_opflow(DecrMoment("DecrMoment_for_Toffoli", []))
 
         # Density Matrix Based
+        qreg = (list(qreg[0]), qreg[1])
         _toffoligate = Toffoli(
             dims=self.qregs, qreg=qreg, plus=plus, backend=self.backend
         )
@@ -301,6 +302,7 @@ class QuantumCircuit:
         :return: True if everything goes well, else False
         """
 
+        acting_on = tuple(acting_on)
         self.__validate_gate_inputs(list(acting_on), dims)
         if acting_on[0] == acting_on[1]:
             raise ValueError("Control and target must be different registers.")
@@ -336,6 +338,7 @@ class QuantumCircuit:
                 qreg=qreg, dims=dims or self._reg_dims[qreg], backend=self.backend
             )
         elif type(qreg) is list:
+            qreg = list(qreg)
             _gate = gate(
                 qreg=qreg, dims=dims or [ self._reg_dims[qreg_i] for qreg_i in qreg ], backend=self.backend
             )
-- 
2.43.0


From 3a885d1e7c36e224540f3ff32a6046a4cfa64e74 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:52 +0000
Subject: [PATCH 22/39] fix: qasm programs that start with their header line

---
 src/qudiet/qasm/qasm_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 1b6b06c..b1243fc 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -39,7 +39,7 @@ def parse_qasm(filename: str, backend: Backend = None):
 
 
 def circuit_from_qasm(_data, backend: Backend = None):
-    _data = "\n".join(_line.split("#")[0].strip() for _line in _data.split("\n"))
+    _data = "\n" + "\n".join(_line.split("#")[0].strip() for _line in _data.split("\n"))
     _data = re.sub(r"\.qubit (\d+)", r".qudit \1", _data)
     _data = re.sub(r"\.qutrit (\d+)", r".qudit \1", _data)
     _data = re.split("\n\.(qudit\s\d+|begin|end)", _data)
-- 
2.43.0


From 4083e563b35220eb30d23511c86e2673057d7262 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:01 +0000
Subject: [PATCH 23/39] fix: the batch runner survives files whose name or
 error contains markup

---
 experimental.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/experimental.py b/experimental.py
index aa2ef1f..ec2e5e5 100644
--- a/experimental.py
+++ b/experimental.py
@@ -1,5 +1,6 @@
 from xmlrpc.client import boolean
 from rich.console import Console
+from rich.markup import escape
 from qudiet.core import backend
 from src.qudiet.qasm.qasm_parser import parse_qasm
 import argparse, glob, pickle, warnings, time, json
@@ -68,11 +69,11 @@ def main():
 
     files = glob.glob(directory_path, recursive = True)
     console.print(f"File count: [green]{len(files)}[white]")
-    console.print(f"Analyzing files: [green]{'[white], [green]'.join(files)}[white]\n\n")
+    console.print(f"Analyzing files: [green]{'[white], [green]'.join(map(escape, files))}[white]\n\n")
 
     if operate_on in ["txt", "qasm"]:
         for file in files:
-            display = f"[bold green]Working on {file}..."
+            display = f"[bold green]Working on {escape(file)}..."
             if terminal:
                 with console.status(display) as status:
                     routine(file, backend, suffix, verbose)
@@ -110,16 +111,16 @@ def routine(file, backend, suffix, verbose):
         with open(output, "wb") as out_file:
             pickle.dump(result, out_file)
 
-        console.print(f"[bold yellow]---->[white] Result for file [bold green]'{file}': ", result)
+        console.print(f"[bold yellow]---->[white] Result for file [bold green]'{escape(file)}': ", result)
 
         if verbose:
-            console.print(f"[bold]saved in [purple]{output}\n")
+            console.print(f"[bold]saved in [purple]{escape(output)}\n")
 
     except Exception as e: #IndexError as ie:
         # result = ie.args
         # print(f"[x] File '{file}' got exception '{e}'...")
         warnings.warn(f"[x] File '{file}' got exception '{e}'...")
-        console.print(f"[bold red][x][white] File [bold green]'{file}'[white] got exception '{e}'...\n[x]")
+        console.print(f"[bold red][x][white] File [bold green]'{escape(file)}'[white] got exception '{escape(str(e))}'...\n[x]")
 
 # operate_on = "pkl"
 # directory_path = "testbench/tof_qutrit" + "/**/*."+operate_on
-- 
2.43.0


From e1403eb948ac8b144c017d359b2ba5e575149b47 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:25 +0000
Subject: [PATCH 24/39] fix: license header goes below a coding line that ends
 the file

---
 scripts/license-headers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/license-headers.py b/scripts/license-headers.py
index 9aed439..ea57537 100644
--- a/scripts/license-headers.py
+++ b/scripts/license-headers.py
@@ -129,6 +129,8 @@ def add_header_to_file(filepath: str) -> None:
     for i, line in enumerate(lines):
         if line not in lines_to_keep:
             break
+    else:
+        i = len(lines)
     lines = lines[:i] + license_header_lines + lines[i:]
     with open(filepath, mode="w") as f:
         f.truncate()
-- 
2.43.0


From db71f08ed2ffd6533b75f9ebd1d8e06adb47ad83 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:25 +0000
Subject: [PATCH 25/39] fix: adding a license header keeps the line endings of
 the file

---
 scripts/license-headers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scripts/license-headers.py b/scripts/license-headers.py
index ea57537..ecec834 100644
--- a/scripts/license-headers.py
+++ b/scripts/license-headers.py
@@ -123,16 +123,18 @@ def does_file_need_fix(filepath: str) -> bool:
 
 
 def add_header_to_file(filepath: str) -> None:
-    with open(filepath, mode="r") as f:
+    with open(filepath, mode="r", newline="") as f:
         lines = list(f)
+    eol = "\r\n" if lines and lines[0].endswith("\r\n") else "\n"
+    header = [line.replace("\n", eol) for line in license_header_lines]
     i = 0
     for i, line in enumerate(lines):
-        if line not in lines_to_keep:
+        if line.replace("\r\n", "\n") not in lines_to_keep:
             break
     else:
         i = len(lines)
-    lines = lines[:i] + license_header_lines + lines[i:]
-    with open(filepath, mode="w") as f:
+    lines = lines[:i] + header + lines[i:]
+    with open(filepath, mode="w", newline="") as f:
         f.truncate()
         f.write("".join(lines))
     print(f"Fixed {os.path.relpath(filepath, os.getcwd())}")
-- 
2.43.0


From b111350a1c7a47aa5cc4ff2b0c3abd32af3bc527 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:26 +0000
Subject: [PATCH 26/39] fix: looking up a control in a moment finds its Toffoli
 gate

---
 src/qudiet/core/moment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/core/moment.py b/src/qudiet/core/moment.py
index 804235a..5e987bf 100644
--- a/src/qudiet/core/moment.py
+++ b/src/qudiet/core/moment.py
@@ -82,7 +82,8 @@ class Moment:
             _qregs = gate.acting_on
             if type(_qregs) is int:
                 _qregs = [_qregs]
-            if qreg in _qregs:
+            # The registers of a Toffoli are ([controls], target)
+            if qreg in _qregs or any(qreg in _q for _q in _qregs if type(_q) is list):
                 if index:
                     return gate, i
                 return gate
-- 
2.43.0


From 56c4c5b9ea12eb312c7968461fdb490b5f86ee66 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:38 +0000
Subject: [PATCH 27/39] fix: Nbase_to_bin does not change the number it is
 given

A zero-dimensional array was divided in place, so that every label of a
report of the GPU backends, which takes the digits twice, was |00...0>.
---
 src/qudiet/utils/numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/utils/numpy.py b/src/qudiet/utils/numpy.py
index 2028918..ec9d533 100644
--- a/src/qudiet/utils/numpy.py
+++ b/src/qudiet/utils/numpy.py
@@ -50,7 +50,7 @@ def Nbase_to_bin(_repr, base=[2]):
     while _repr:
         _base = base[len(digits)]
         digits += [int(_repr % _base)]
-        _repr //= _base
+        _repr = _repr // _base
     if len(digits) < len(base):
         digits += [
             0,
-- 
2.43.0


From 904fef7679e2ac5691ac56971200a0fec3d22acd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:38 +0000
Subject: [PATCH 28/39] fix: CUDASparseBackend.eye(n, m) has n rows and m
 columns, as NumpyBackend.eye

---
 src/qudiet/core/backend/CUDASparseBackend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/backend/CUDASparseBackend.py b/src/qudiet/core/backend/CUDASparseBackend.py
index 08c84e9..75b888c 100644
--- a/src/qudiet/core/backend/CUDASparseBackend.py
+++ b/src/qudiet/core/backend/CUDASparseBackend.py
@@ -53,7 +53,7 @@ class CUDASparseBackend(Backend):
 
     @staticmethod
     def eye(n, m):
-        return sparse.eye(n=n, m=m)
+        return sparse.eye(m=n, n=m)
 
     @staticmethod
     def matrix(a):
-- 
2.43.0


From 0842590c0b3b412c06a5ed2b3882b8f01b173937 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:38 +0000
Subject: [PATCH 29/39] fix: instances of the CUDA backends have their
 operations

---
 src/qudiet/core/backend/CUDABackend.py       | 2 +-
 src/qudiet/core/backend/CUDASparseBackend.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qudiet/core/backend/CUDABackend.py b/src/qudiet/core/backend/CUDABackend.py
index a3146fc..b61569c 100644
--- a/src/qudiet/core/backend/CUDABackend.py
+++ b/src/qudiet/core/backend/CUDABackend.py
@@ -41,7 +41,7 @@ class CUDABackend(Backend):
     def __getattribute__(self, name):
         if not CUDA_HOME:
             raise Exception("CUDA Backend is disabled.")
-        super().__getattribute__(name)
+        return super().__getattribute__(name)
 
     @staticmethod
     def kron(a, b):
diff --git a/src/qudiet/core/backend/CUDASparseBackend.py b/src/qudiet/core/backend/CUDASparseBackend.py
index 75b888c..a1b54fb 100644
--- a/src/qudiet/core/backend/CUDASparseBackend.py
+++ b/src/qudiet/core/backend/CUDASparseBackend.py
@@ -41,7 +41,7 @@ class CUDASparseBackend(Backend):
     def __getattribute__(self, name):
         if not CUDA_HOME:
             raise Exception("CUDA Backend is disabled.")
-        super().__getattribute__(name)
+        return super().__getattribute__(name)
 
     @staticmethod
     def kron(a, b):
-- 
2.43.0


From 254b6b2cb3270a7f15f5dd6445b4536b827f62f2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:25 +0000
Subject: [PATCH 30/39] fix: SparseBackend.kron stored the zeros of every
 block, half of all matrix entries

Without a format, scipy.sparse.kron answers with block matrices that store every
entry of a block, so each layer of a register of n qubits held 4^n / 2 numbers and
the sparse backend needed more memory than the dense one.
---
 src/qudiet/core/backend/SparseBackend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/backend/SparseBackend.py b/src/qudiet/core/backend/SparseBackend.py
index 70c4c55..6fb6a35 100644
--- a/src/qudiet/core/backend/SparseBackend.py
+++ b/src/qudiet/core/backend/SparseBackend.py
@@ -31,7 +31,7 @@ from qudiet.core.backend.core import Backend
 class SparseBackend(Backend):
     @staticmethod
     def kron(a, b):
-        return sparse.kron(a, b)
+        return sparse.kron(a, b, format="csr")
 
     @staticmethod
     def dot(a, b):
-- 
2.43.0


From b0670daca55d1d32b2816a0f4c386a16e6ae1cf3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:12 +0000
Subject: [PATCH 31/39] fix: bin_to_Nbase overflowed when the product of the
 bases exceeds 64 bits

---
 src/qudiet/utils/numpy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qudiet/utils/numpy.py b/src/qudiet/utils/numpy.py
index ec9d533..acbcc67 100644
--- a/src/qudiet/utils/numpy.py
+++ b/src/qudiet/utils/numpy.py
@@ -39,9 +39,10 @@ def bin_to_Nbase(target, base=2):
         assert len(target) == len(base)
 
     # base[0] = 1 # Anything to the power of 0 is 1
-    scale = np.array(base[::-1]).cumprod()
-    scale = [1, *scale[:-1]]
-    return np.sum(scale[::-1] * np.array(target))
+    # Python integers: the products of many bases do not fit into 64 bits
+    scale = np.array(base[::-1], dtype=object).cumprod()
+    scale = np.array([1, *scale[:-1]], dtype=object)
+    return np.sum(scale[::-1] * np.array(target, dtype=object))
 
 
 def Nbase_to_bin(_repr, base=[2]):
-- 
2.43.0


From 1bbd66b34d5c95e9da6af335b151191767ca3686 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:24 +0000
Subject: [PATCH 32/39] fix: CX adds increments beyond 64 bits modulo the
 target's dimension

Increments around 2^63 overflowed, and those from 2^63 to 2^64 were rounded to a double.
---
 src/qudiet/circuit_library/standard_gates/cx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/circuit_library/standard_gates/cx.py b/src/qudiet/circuit_library/standard_gates/cx.py
index d7a3a1e..37288d3 100644
--- a/src/qudiet/circuit_library/standard_gates/cx.py
+++ b/src/qudiet/circuit_library/standard_gates/cx.py
@@ -145,7 +145,7 @@ class CXGate(QuantumGate, ABC):
 
         # apply transform
         # target_change_to = (src_in_truth_table[target_i] + abs(target - plus)) # % target
-        target_change_to = (src_in_truth_table[target_i] + plus) % target
+        target_change_to = (src_in_truth_table[target_i] + plus % target) % target
 
         trgt_in_truth_table = src_in_truth_table.copy()
         trgt_in_truth_table[target_i] = target_change_to
-- 
2.43.0


From f6f38264cda36d585b73c0bc0c98d7d1842684fc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:25 +0000
Subject: [PATCH 33/39] fix: the batch runner finds the files of a directory
 whose path has [, * or ? in it

The path was taken for a pattern.
---
 experimental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental.py b/experimental.py
index ec2e5e5..0c817f6 100644
--- a/experimental.py
+++ b/experimental.py
@@ -65,7 +65,7 @@ def arguments():
 
 def main():
     operate_on, directory_path, verbose, backend, suffix, terminal = arguments()
-    directory_path += "/**/*."+operate_on
+    directory_path = glob.escape(directory_path) + "/**/*."+operate_on
 
     files = glob.glob(directory_path, recursive = True)
     console.print(f"File count: [green]{len(files)}[white]")
-- 
2.43.0


From c3f79068a80a94e5e9fdf8aeed728a6cbc4224d1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:42 +0000
Subject: [PATCH 34/39] fix: toffoli() refuses registers outside the circuit
 and a target among its controls

toffoli(([-3, -2], -1)) was accepted and silently dropped; the other invalid
requests were accepted and failed only when the circuit ran.
---
 src/qudiet/core/quantum_circuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index e01049d..66e7b27 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -283,6 +283,10 @@ class QuantumCircuit:
 
         # Density Matrix Based
         qreg = (list(qreg[0]), qreg[1])
+        self.__validate_gate_inputs(qreg[0] + [qreg[1]], None)
+        if qreg[1] in qreg[0]:
+            raise ValueError("The target must not be one of the controls.")
+
         _toffoligate = Toffoli(
             dims=self.qregs, qreg=qreg, plus=plus, backend=self.backend
         )
-- 
2.43.0


From 21ed888118806f9d9ddff13bdcf1a1a486c25971 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:50 +0000
Subject: [PATCH 35/39] fix: commas and tabs separate the operands of a qasm
 instruction, with or without spaces

---
 src/qudiet/qasm/qasm_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index b1243fc..cc8eec8 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -39,7 +39,11 @@ def parse_qasm(filename: str, backend: Backend = None):
 
 
 def circuit_from_qasm(_data, backend: Backend = None):
-    _data = "\n" + "\n".join(_line.split("#")[0].strip() for _line in _data.split("\n"))
+    # Without comments; commas and white space separate words alike
+    _data = "\n" + "\n".join(
+        " ".join(_line.split("#")[0].replace(",", " ").split())
+        for _line in _data.split("\n")
+    )
     _data = re.sub(r"\.qubit (\d+)", r".qudit \1", _data)
     _data = re.sub(r"\.qutrit (\d+)", r".qudit \1", _data)
     _data = re.split("\n\.(qudit\s\d+|begin|end)", _data)
-- 
2.43.0


From 8b2ae7eccfc68100f02aeb7b0b84ff07626e12c4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:11 +0000
Subject: [PATCH 36/39] fix: a qasm register is the one of its name, in
 whichever order they are declared

---
 src/qudiet/qasm/qasm_parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index cc8eec8..beec43c 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -56,9 +56,13 @@ def circuit_from_qasm(_data, backend: Backend = None):
     _data[0] = re.sub(r"qubit x(\d+)", r"qudit x\1 (2)", _data[0])
     _data[0] = re.sub(r"qutrit x(\d+)", r"qudit x\1 (3)", _data[0])
 
-    _qregs = [
-        int(re.findall("\d+", _dims)[0]) for _dims in re.findall("\d+\)", _data[0])
-    ]
+    _declared = sorted(
+        (int(_index), int(_dims))
+        for _index, _dims in re.findall(r"(\d+) ?\( ?(\d+) ?\)", _data[0])
+    )
+    if [_index for _index, _ in _declared] != list(range(len(_declared))):
+        raise ValueError("The registers declared are not x0, x1, x2, ...")
+    _qregs = [_dims for _, _dims in _declared]
     if backend is None:
         backend = DefaultBackend
 
-- 
2.43.0


From f33182ab3dfd2b34660cfd377a6bebf45070dfa3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:28 +0000
Subject: [PATCH 37/39] fix: Toffoli gates are controlled, and custom gates of
 several registers are not single-qudit gates

---
 src/qudiet/circuit_library/__init__.py                 |  2 +-
 .../circuit_library/standard_gates/toffoli_utility.py  | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/qudiet/circuit_library/__init__.py b/src/qudiet/circuit_library/__init__.py
index e581390..c4cdf19 100644
--- a/src/qudiet/circuit_library/__init__.py
+++ b/src/qudiet/circuit_library/__init__.py
@@ -64,7 +64,7 @@ class ArbitaryGate(QuantumGate, ABC):
         Check if the gate is a single qudit or multi-qudit
         :return: True or False, depending on the scenario
         """
-        return True
+        return type(self.qreg) is int or len(self.qreg) == 1
 
     @property
     def unitary(self) -> csr_matrix:
diff --git a/src/qudiet/circuit_library/standard_gates/toffoli_utility.py b/src/qudiet/circuit_library/standard_gates/toffoli_utility.py
index f894e36..a3e02af 100644
--- a/src/qudiet/circuit_library/standard_gates/toffoli_utility.py
+++ b/src/qudiet/circuit_library/standard_gates/toffoli_utility.py
@@ -82,4 +82,12 @@ class Toffoli(ArbitaryGate):
         self._acting_on = list(range(lb, ub+1)) 
         super().__init__(qreg, [dims[a] for a in self._acting_on], backend)
         self._unitary = _unitary
-        self._plus = plus
\ No newline at end of file
+        self._plus = plus
+
+    @property
+    def is_controlled(self) -> bool:
+        return True
+
+    @property
+    def is_single_qudit(self) -> bool:
+        return False
-- 
2.43.0


From 7e8cb48d2ef1cf697b7496a0ed556b0bfffb294a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:28 +0000
Subject: [PATCH 38/39] fix: a qasm RX is an increment only with an angle of
 180 degrees

---
 src/qudiet/qasm/qasm_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index beec43c..8929156 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -93,7 +93,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
 
     for _gate in _gates:
         if re.search("^[Xx]", _gate) or (
-            re.search("^RX", _gate) and re.search("180$", _gate)
+            re.search("^RX", _gate) and re.search(" -?180$", _gate)
         ):
             plus = 1
             if len(_gate.split()) == 3 and not re.search("^RX", _gate):
-- 
2.43.0


From 7dbc8e0d47408a912c330fead0f30c4671fca74f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:36 +0000
Subject: [PATCH 39/39] fix: circuits of very many layers can be copied

The links between layers made copy.deepcopy recurse once per layer, so
that it failed for circuits of more than about 300 layers.  A flow now
links its layers again when it is copied or unpickled.
---
 src/qudiet/core/moment.py        | 4 ++++
 src/qudiet/core/operator_flow.py | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/src/qudiet/core/moment.py b/src/qudiet/core/moment.py
index 5e987bf..a956701 100644
--- a/src/qudiet/core/moment.py
+++ b/src/qudiet/core/moment.py
@@ -63,6 +63,10 @@ class Moment:
 
         # TODO: Run unit tests
 
+    def __getstate__(self):
+        # The flow links its layers again: a long chain is too deep to be copied
+        return {**self.__dict__, "_prev_pointer": None, "_next_pointer": None}
+
     @property
     def prev_pointer(self):
         return self._prev_pointer
diff --git a/src/qudiet/core/operator_flow.py b/src/qudiet/core/operator_flow.py
index e09a92f..782b81f 100644
--- a/src/qudiet/core/operator_flow.py
+++ b/src/qudiet/core/operator_flow.py
@@ -58,6 +58,13 @@ class OperatorFlow:
 
         self.debug_backend = DefaultBackend
 
+    def __setstate__(self, state):
+        # The layers of a copied or unpickled flow come without their links
+        self.__dict__.update(state)
+        for _prev, _next in zip(self._opflow_list, self._opflow_list[1:]):
+            _prev.next_pointer = _next
+            _next.prev_pointer = _prev
+
     def peek(self) -> list:
         """
         Responsible for peeking the list of Moments
-- 
2.43.0

