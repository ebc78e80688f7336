use crate::error::Result;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum VisitRecursion {
    Continue,
    Skip,
    Stop,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RewriteRecursion {
    Continue,
    Mutate,
    Stop,
    Skip,
}
pub trait TreeNodeVisitor: Sized {
    type N: TreeNode;
    fn pre_visit(&mut self, node: &Self::N) -> Result<VisitRecursion>;
    fn post_visit(&mut self, _: &Self::N) -> Result<VisitRecursion> {
        Ok(VisitRecursion::Continue)
    }
}
pub trait TreeNodeRewriter: Sized {
    type N: TreeNode;
    fn pre_visit(&mut self, _: &Self::N) -> Result<RewriteRecursion> {
        Ok(RewriteRecursion::Continue)
    }
    fn mutate(&mut self, node: Self::N) -> Result<Self::N>;
}
pub trait TreeNode: Clone + Sized {
    fn kids(&self) -> Vec<Self>;
    fn with_kids(self, k: Vec<Self>) -> Result<Self>;
    fn visit<V: TreeNodeVisitor<N = Self>>(&self, v: &mut V) -> Result<VisitRecursion> {
        match v.pre_visit(self)? {
            VisitRecursion::Continue => {}
            VisitRecursion::Skip => return Ok(VisitRecursion::Continue),
            VisitRecursion::Stop => return Ok(VisitRecursion::Stop),
        }
        for k in self.kids() {
            match k.visit(v)? {
                VisitRecursion::Continue => {}
                VisitRecursion::Skip => return Ok(VisitRecursion::Continue),
                VisitRecursion::Stop => return Ok(VisitRecursion::Stop),
            }
        }
        v.post_visit(self)
    }
    fn rewrite<R: TreeNodeRewriter<N = Self>>(self, r: &mut R) -> Result<Self> {
        let need = match r.pre_visit(&self)? {
            RewriteRecursion::Mutate => return r.mutate(self),
            RewriteRecursion::Stop => return Ok(self),
            RewriteRecursion::Continue => true,
            RewriteRecursion::Skip => false,
        };
        let ks = self.kids();
        let node = if ks.is_empty() {
            self
        } else {
            let mut n = Vec::with_capacity(ks.len());
            for k in ks {
                n.push(k.rewrite(r)?);
            }
            self.with_kids(n)?
        };
        if need {
            r.mutate(node)
        } else {
            Ok(node)
        }
    }
}
