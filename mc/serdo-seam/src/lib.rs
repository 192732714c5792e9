//! Exploration seam for klavier-core.
//!
//! Same interface as `serdo`'s persistent undo store as far as klavier-core uses it, but in
//! memory and `Clone`, so that the explorer can branch at any state. Every command is written
//! to a byte log with bincode when it is recorded (as the real store does before it hands it to
//! its SQLite writer), and undo/redo read it back from those bytes (as the real store does).
pub mod cmd {
    pub trait Cmd {
        type Model;
        fn undo(&self, model: &mut Self::Model);
        fn redo(&self, model: &mut Self::Model);
        fn merge<T: Cmd>(&self, _other: &T) -> Option<T> {
            None
        }
    }

    pub trait SerializableCmd: Cmd + serde::Serialize + serde::de::DeserializeOwned {}
}

pub mod undo_store {
    use crate::cmd::{Cmd, SerializableCmd};
    use error_stack::Result;
    use std::rc::Rc;

    pub trait UndoStore {
        type ModelType;
        type CmdType: Cmd<Model = Self::ModelType>;
        type ErrType;

        fn model(&self) -> &Self::ModelType;
        fn mutate(
            &mut self,
            f: Box<dyn FnOnce(&mut Self::ModelType) -> Result<Self::CmdType, Self::ErrType>>,
        ) -> Result<(), Self::ErrType>;
        fn irreversible_mutate<R>(&mut self, f: Box<dyn FnOnce(&mut Self::ModelType) -> R>) -> R
        where
            Self: Sized;
        fn add_cmd(&mut self, cmd: Self::CmdType);
        fn can_undo(&self) -> bool;
        fn undo(&mut self);
        fn can_redo(&self) -> bool;
        fn redo(&mut self);
    }

    pub struct SqliteUndoStore<C, M, E> {
        phantom: std::marker::PhantomData<fn() -> (C, E)>,
        model: M,
        log: Vec<Rc<Vec<u8>>>,
        pos: usize,
    }

    impl<C, M: Clone, E> Clone for SqliteUndoStore<C, M, E> {
        fn clone(&self) -> Self {
            Self { phantom: std::marker::PhantomData, model: self.model.clone(), log: self.log.clone(), pos: self.pos }
        }
    }

    impl<C, M, E> SqliteUndoStore<C, M, E>
    where
        C: SerializableCmd<Model = M>,
    {
        pub fn from_model(model: M) -> Self {
            Self { phantom: std::marker::PhantomData, model, log: vec![], pos: 0 }
        }
        /// The recorded commands, as bytes, oldest first (undone ones included).
        pub fn log(&self) -> &[Rc<Vec<u8>>] {
            &self.log
        }
        /// How many of them are currently done.
        pub fn pos(&self) -> usize {
            self.pos
        }
        pub fn decode(bytes: &[u8]) -> C {
            bincode::deserialize(bytes).expect("a recorded command must be readable")
        }
        fn post(&mut self, cmd: C) {
            let bytes = bincode::serialize(&cmd).expect("a recorded command must be writable");
            self.log.truncate(self.pos);
            self.log.push(Rc::new(bytes));
            self.pos = self.log.len();
        }
    }

    impl<C, M, E> UndoStore for SqliteUndoStore<C, M, E>
    where
        C: SerializableCmd<Model = M>,
    {
        type ModelType = M;
        type CmdType = C;
        type ErrType = E;

        fn model(&self) -> &M {
            &self.model
        }
        fn mutate(&mut self, f: Box<dyn FnOnce(&mut M) -> Result<C, E>>) -> Result<(), E> {
            let cmd = f(&mut self.model)?;
            self.post(cmd);
            Ok(())
        }
        fn irreversible_mutate<R>(&mut self, f: Box<dyn FnOnce(&mut M) -> R>) -> R {
            f(&mut self.model)
        }
        fn add_cmd(&mut self, cmd: C) {
            cmd.redo(&mut self.model);
            self.post(cmd);
        }
        fn can_undo(&self) -> bool {
            0 < self.pos
        }
        fn undo(&mut self) {
            if 0 < self.pos {
                self.pos -= 1;
                Self::decode(&self.log[self.pos]).undo(&mut self.model);
            }
        }
        fn can_redo(&self) -> bool {
            self.pos < self.log.len()
        }
        fn redo(&mut self) {
            if self.pos < self.log.len() {
                Self::decode(&self.log[self.pos]).redo(&mut self.model);
                self.pos += 1;
            }
        }
    }
}
